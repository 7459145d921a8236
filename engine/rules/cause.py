"""A07: a failed system call is reported with its cause."""
import base, re
from models import set_errno
from rules.ctx import *
from rules.life import public
from rules.mem import follow, DRIVERS

# calls whose failure the caller is told about; a failing readv is a lost connection, a failing connect of an announced publisher is tried again later
REPORTED = {"socket", "setsockopt", "bind", "listen", "getsockname", "accept", "accept4", "recvfrom", "sendmsg", "writev", "getsockopt"}
DATA = {"recvfrom", "sendmsg", "writev"}            # nothing to read, or no room, is no failure
ERRNO = re.compile(r"^(errno#|@__errno)")

def A07(chk):
    R = "A07"; M = chk.M; pub = set(public(chk)); seen = {}; made = set()
    chk.assume += [ASSUME_CB + "; they may change errno", ASSUME_RING, "closing a descriptor, releasing memory and printing an error leave errno alone", "what the other rules assume about the state a call starts in"]
    def hook(ip):
        ip.on_callback = lambda st, y, args, null: set_errno(ip, st)
    def notes(f, ip, fn, outs):
        if fn not in pub: return
        for k, s, x in outs:
            if k != "ret" or x is None: continue
            sys_ = [e for e in s.events() if e.kind == "sys" and e.x]
            bad = [e for e in sys_ if not e.x.get("ok", True)]
            rep = [e for e in bad if e.name in REPORTED]
            pend = [e for e in sys_ if e.name == "getsockopt" and e.x.get("ok") and e.x.get("value") is not None]
            aton = [e for e in bad if e.name == "inet_aton"]
            for q, r in evals(s, lambda z: ip.view(z, x, "s")):
                if rep:
                    e = rep[-1]; seen[e.name] = seen.get(e.name, 0) + 1
                    if any(q.entails(EQ(r, g.x["errno"])) for g in rep): chk.fact(R + ".cause", q, True, fn=fn, line=e.line); continue
                    if e.name in DATA:
                        for q1, again in splits(q, EQ(e.x["errno"], 11)):
                            if again and q1.entails(EQ(r, 0)): chk.fact(R + ".cause", q1, True, fn=fn, line=e.line)
                            else: chk.ob(R + ".cause", q1, EQ(r, e.x["errno"]), fn=e.fn, line=e.line, what="%s fails, and %s does not answer with its error" % (e.name, fn), key="cause-%s-%s" % (fn, e.name))
                        continue
                    chk.ob(R + ".cause", q, EQ(r, e.x["errno"]), fn=e.fn, line=e.line, what="%s fails, and %s does not answer with its error" % (e.name, fn), key="cause-%s-%s" % (fn, e.name)); continue
                if aton:
                    seen["inet_aton"] = seen.get("inet_aton", 0) + 1
                    chk.ob(R + ".cause", q, NE(r, 0), fn=fn, line=aton[-1].line, what="an address that is none is not refused", key="cause-%s-inet_aton" % fn); continue
                if pend:
                    e = pend[-1]; v = e.x["value"]
                    for q1, fine in splits(q, EQ(v, 0)):
                        if not fine:
                            seen["SO_ERROR"] = seen.get("SO_ERROR", 0) + 1
                            chk.ob(R + ".cause", q1, EQ(r, v), fn=e.fn, line=e.line, what="a connection could not be established, and %s does not answer with the reason" % fn, key="cause-%s-pending" % fn)
                        else: stale(q1, fn, r)
                    continue
                stale(q, fn, r)
    def stale(q, fn, r):
        """no call failed that matters: the answer is not an error number left over from something else"""
        y = [z for z in q.norm(r).syms() if ERRNO.match(SYMS[z].name or "")]
        seen["stale"] = seen.get("stale", 0) + 1
        chk.fact(R + ".stale", q, not y, fn=fn, what="%s answers with an error number that is not from a call that failed" % fn, key="stale-" + fn)
    follow(chk, hook, notes, DRIVERS)
    chk.notes.append("failures followed to the answer: " + ", ".join("%s %d" % (n, c) for n, c in sorted(seen.items())))
    for n in ("socket", "setsockopt", "bind", "accept", "recvfrom", "sendmsg", "writev", "SO_ERROR"):
        if n not in seen: chk.unsure(R + ".cause", n, "failures of %s" % n, "none was followed")
    chk.fact(R + ".present", State(), len(seen) > 4, fn="rmc_pub_write", what="hardly any failure could be followed", key="present")
