prop = "C11"
needs = "EXPIRE ... GT with exactly the deadline the key already has"
breaks = "the command reports a change although the new deadline is not greater"
edits = [("component/dict/src/cmd/simple/expire.rs", "v.expires_at != 0 && v.expires_at < self.expires_at", "v.expires_at != 0 && v.expires_at <= self.expires_at")]
py = '''
p = start(); c = Client(p.port)
c.cmd("SET", "k", "v")
expect(c.cmd("PEXPIREAT", "k", "4000000000000"), 1, "first deadline")
expect(c.cmd("PEXPIREAT", "k", "3000000000000", "GT"), 0, "smaller")
expect(c.cmd("PEXPIREAT", "k", "4000000000000", "GT"), 0, "GT with an equal deadline")
'''
