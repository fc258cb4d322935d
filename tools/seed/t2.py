exec(open('/tmp/seed/t1.py').read().split("BUGS = []")[0])
BUGS = []
def bug(**k): BUGS.append(k)
bug(id="length-of-long-frames", property="W04",
    edits=[("puck/src/ws/frame.rs", "let two = { Self::format_length(self.decoded.len() as u64) };", "let two = { Self::format_length(self.decoded.len() as u16 as u64) };")],
    needs="a message of 65536 bytes or more",
    what="the length byte is computed from the lower half of the length, and does not announce the eight byte length which follows",
    demo='''
with Demo() as d:
    d.serve()
    for n in (125, 126, 65535, 65536, 65700):
        s, _ = upgrade(d)
        s.sendall(frame(2, b"p" * n))
        head = bytes([0x82]) + (bytes([n]) if n < 126 else b"\\x7e" + n.to_bytes(2, "big") if n < 65536 else b"\\x7f" + n.to_bytes(8, "big"))
        got = read_all(s, 5, lambda b: len(b) >= len(head) + n)
        check(got == head + b"p" * n, f"{n}: {got[:20]!r}")
''', main=WS_MAIN)
