prop = "C13"
needs = "an LRANGE whose stop index equals the length of the list exactly"
breaks = "LRANGE panics instead of treating the stop as the last element"
edits = [("component/dict/src/data_type/deque.rs", "        if stop >= len {\n            stop = len - 1;", "        if stop > len {\n            stop = len - 1;")]
py = '''
p = start(); c = Client(p.port)
expect(c.cmd("RPUSH", "l", "a", "b", "c"), 3, "push")
try:
    r = c.cmd("LRANGE", "l", "0", "3")
except (EOFError, OSError) as e:
    r = repr(e)
expect(r, [b"a", b"b", b"c"], "LRANGE 0 3")
'''
