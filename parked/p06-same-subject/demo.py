from common import *

ca = new_ca()
a, _, _ = enroll(ca, "CN=Twin")
b, _, _ = enroll(ca, "CN=Twin")
ans = send(ca, sign(request(key("ec"), "CN=New", kind="cr", by_mac=False, implicit_confirm=False), a))
expect(granted(ans), "request refused")
cert = cert_of(ans)
reply = send(ca, sign(conf(ans, cert), b))
expect(body(reply) == "error", "confirmation with another credential was accepted")
expect(state(ca, cert).name == "NOT_CONFIRMED", "certificate confirmed with another credential")
reply = send(ca, sign(conf(ans, cert), a))
expect(body(reply) == "pkiconf", "correct confirmation refused")
done()
