from common import *

ca = new_ca()
old, _, _ = enroll(ca, "CN=Superseded")
ans = send(ca, kur(key("ec"), old))
expect(granted(ans), "update refused")
first = send(ca, rr(old[1], ra())); print(body(first), status(first), state(ca, old[1]))
second = send(ca, rr(old[1], ra(), reason="removeFromCRL")); print(body(second), status(second), state(ca, old[1]))
ans = send(ca, sign(request(key("ec"), "CN=Other", kind="cr", by_mac=False), old))
expect(not granted(ans), "a superseded certificate authenticates a request again")
done()
