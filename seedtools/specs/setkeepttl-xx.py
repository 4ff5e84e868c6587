prop = "C08"
needs = "SET with both XX and KEEPTTL on a key that has a deadline"
breaks = "the deadline is lost"
edits = [("component/dict/src/cmd/simple/set.rs", "                ExpiresAt::Last => old_expires_at,", "                ExpiresAt::Last if self.nx_xx.is_xx() => 0,\n                ExpiresAt::Last => old_expires_at,")]
py = '''
p = start(); c = Client(p.port)
c.cmd("SET", "k", "v", "EX", "1000")
c.cmd("SET", "k", "w", "KEEPTTL")
expect(c.cmd("TTL", "k") > 900, True, "KEEPTTL")
c.cmd("SET", "k", "x", "XX", "KEEPTTL")
expect(c.cmd("TTL", "k") > 900, True, "XX KEEPTTL")
'''
