prop = "C18"
needs = "ZREM of several members of which one is absent and a later one present"
breaks = "members after an absent one are not removed"
edits = [("component/dict/src/cmd/sorted_set/remove.rs", "                        sorted_set.value.remove(on);\n                    }", "                        sorted_set.value.remove(on);\n                    } else {\n                        break;\n                    }")]
py = '''
p = start(); c = Client(p.port)
c.cmd("ZADD", "z", "1", "a", "2", "b", "3", "c")
expect(c.cmd("ZREM", "z", "a", "nope"), 1, "absent member last")
expect(c.cmd("ZREM", "z", "nope", "b"), 1, "absent member first")
'''
