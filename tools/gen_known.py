#!/usr/bin/env python3
"""Writes known_findings.txt: the recorded findings below, then one 'fixed:' line per fix commit in /repo. Run by hand after a fix."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
KNOWN = [
    ("P18", "given-up-element-in-partial-path", "rbusElementInfo_get on a partial path still reports an element after rbus_unregDataElements: the element stays in the provider's tree (TODO in rbus_unregDataElements)"),
    ("P21", "raw-subscription-ended-while-provider-away", "rbusEvent_UnsubscribeRawData while the provider is away is never told to the provider: its cache takes the subscription up again at every restart (nothing is delivered; the listener that would notice the first event is removed before the unsubscription is tried)"),
    ("P07", "client-that-does-not-read", "a client that subscribes and does not read stops the broker from serving anybody once its socket is full: messages are forwarded with a blocking sendmsg (scenario noread: 600 messages of 4000 bytes to such a client)"),
    ("P23", "grows:register-rows:c:bytes", "every rbus_regDataElements / rbusTable_addRow / rbus_unregDataElements repetition leaves the row's elements in the provider's tree until the handle is closed (TODO in rbus_unregDataElements, as in P18)"),
]
MAP = [  # words of the subject -> property
    ("end the callbacks that use a handle", "P23"), ("alias only from the component", "P06"), ("rows that was named", "P16"), ("row that was named", "P16"), ("unregister what they registered", "P17"),
    ("timeout file", "P08"), ("name the component that made", "P14"), ("initial value before", "P14"), ("wildcards without rows", "P15"), ("instance numbers", "P16"), ("only rows of tables", "P16"),
    ("message listener an id", "P27"), ("asynchronous subscription only as long", "P13"), ("let go of the subscriptions' lock", "P13"), ("subscribe and unsubscribe paths", "P13"), ("reading of the subscription cache", "P04"),
    ("end interval subscriptions without", "P15"), ("publish value changes without", "P14"), ("only subscribers with a filter", "P14"), ("serialise the asynchronous", "P13"), ("revert a set only", "P10"),
    ("row template", "P16"), ("wildcard get from the rows", "P11"), ("every match of a query", "P11"), ("owners of several names", "P18"), ("failed multi set", "P10"), ("time out report", "P07"),
    ("debug text", "P04"), ("integers outside", "P04"), ("lengths of messages read", "P04"), ("timed out request's queue", "P08"), ("header and payload lengths", "P07"), ("broker's own topics", "P07"),
    ("topics by the routes", "P06"), ("sender's own route", "P06"), ("routing tree's work", "P06"), ("JSON messages", "P04"), ("headers whose strings", "P04"), ("base64", "P04"), ("given buffer with a string", "P01"),
    ("NOT filter", "P02"), ("stop reading a message", "P04"), ("absent operands", "P02"), ("property list intact", "P25"), ("unnamed properties", "P25"), ("relinked", "P25"), ("date times", "P01"),
    ("copied value hold", "P03"), ("old one when a value", "P03"), ("text form of values", "P01"), ("time zone direction", "P01"), ("rbusValue_SetTLV", "P01"), ("compare values exactly", "P01"),
    ("TLVs within", "P02"), ("exactly the bytes written", "P02"), ("last release", "P03"), ("hash string keys", "P25"), ("session whose number", "P20"), ("trace context only into", "P24"),
    ("carry the trace context", "P24"), ("while a sender waits", "P27"),
]


def main():
    log = subprocess.run(["git", "-C", R, "log", "--reverse", "--format=%h %s", "4391de7..HEAD"], capture_output=True, text=True, check=True).stdout
    out = ["known: property=%s key=%s %s" % k for k in KNOWN]
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        p = [p for w, p in MAP + EXTRA if w in s]
        if not p:
            raise SystemExit("no property for: " + s)
        out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
    open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")


EXTRA = [("rtSocketStorage_FromString accepted", "P30"), ("over an address it could not listen on", "P30"), ("rtThreadPool", "P29"), ("rtSemaphore", "P29"), ("did not become a table in existing rows", "P11"), ("rbus_open used the handle after another", "P23"), ("used the value after freeing it", "P03"), ("left out the children of an object", "P02"), ("only event (no event name)", "P28"), ("core subscription another thread", "P28"), ("too long object name leaked", "P28"), ("core method unregistered while", "P28"), ("core event listeners changed", "P28"), ("core event gave up the lock", "P26"), ("match aliases only", "P12"), ("subscriptions below a row", "P13"), ("from sharing unlocked", "P26"), ("of asynchronous subscriptions locked", "P26"), ("under the same lock", "P26"), ("asynchronous calls have ended", "P23"), ("compare all properties", "P14"), ("connection is not restored", "P08"), ("subscription cache whole", "P21"), ("ended while its provider was away", "P21"), ("turn away clients", "P07"), ("beyond FD_SETSIZE", "P23"), ("there is no memory for", "P07"), ("start of an empty name", "P04"), ("handles that are not open", "P23"), ("connection that could not be made", "P23"), ("several are closing", "P23"), ("listeners with the connection locked", "P23"), ("value change detector while", "P23"), ("look at the arguments before", "P23"), ("direct", "P22"), ("raw data subscriptions under their lock", "P26"), ("raw data subscriptions", "P22")]
if __name__ == "__main__":
    main()
