#!/opt/venv/bin/python -IS
# A stand-in for the external video tool, obeying plan.json beside it.
import hashlib, json, os, sys

here = os.path.dirname(os.path.abspath(sys.argv[0]))
plan = json.load(open(os.path.join(here, "plan.json")))
a = sys.argv[1:]
ins = [a[i + 1] for i in range(len(a) - 1) if a[i] == "-i"]
out = a[-1]


def opt(name):
    return a[a.index(name) + 1] if name in a else None


def note(**k):
    with open(os.path.join(here, "log.ndjson"), "a") as f:
        f.write(json.dumps(k) + "\n")


def calls(kind):
    try:
        return sum(json.loads(x)["kind"] == kind for x in open(os.path.join(here, "log.ndjson")))
    except FileNotFoundError:
        return 0


if not ins:
    print("ffmpeg version 0")
    sys.exit(0)
if any(x in ("-", "pipe:", "pipe:0") for x in ins):
    n = calls("draw") + 1
    bad = plan["n"] == n
    if bad and plan["how"] == "refuse":
        note(kind="draw", ok=False)
        sys.stderr.buffer.write(b"no encoder \xff\xfe\n")
        sys.exit(1)
    size = 0
    h = hashlib.sha256()
    while True:
        b = sys.stdin.buffer.read(1 << 20)
        if not b:
            break
        size += len(b)
        h.update(b)
    data = b"VIDEO " + json.dumps(dict(size=opt("-s"), fps=opt("-framerate") or opt("-r"), bytes=size, h=h.hexdigest())).encode() + b"END"
    with open(out, "wb") as f:
        f.write(data[:len(data) // 2] if bad else data)
    note(kind="draw", ok=not bad, out=os.path.basename(out), data=data.decode(), size=opt("-s"), fps=opt("-framerate") or opt("-r"), bytes=size)
    if bad:
        sys.exit(1)
    me = os.path.abspath(sys.argv[0])
    if plan["tool"] in ("missing", "nostart"):
        os.remove(me)
    if plan["tool"] == "nostart":
        with open(me, "wb") as f:
            f.write(b"\x00\x01 not a program")
        os.chmod(me, 0o755)
    sys.exit(0)
# adding sound
vids = [x for x in ins if not x.lower().endswith((".wav", ".flac", ".aiff"))]
auds = [x for x in ins if x not in vids]
v = open(vids[0], "rb").read() if vids else b""
w = open(auds[0], "rb").read() if auds else b""
k = calls("mix") + 1
with open(os.path.join(here, f"audio{k}" + (os.path.splitext(auds[0])[1] if auds else "")), "wb") as f:
    f.write(w)
if vids:
    os.link(vids[0], os.path.join(here, f"video{k}"))
new = b"SOUND " + v + hashlib.sha256(w).hexdigest().encode() + b"END"
tool = plan["tool"]
if os.path.exists(out) and "-y" not in a:     # as the real tool, asked with no terminal
    note(kind="exists")
    sys.exit(1)
same = vids and os.path.exists(out) and os.path.samefile(vids[0], out)
if tool in ("ok", "late"):
    with open(out, "wb") as f:
        f.write(new if tool == "ok" else new[:20])
sys.stderr.buffer.write(b"Stream mapping: \xff\xfe\xc3\x28\n")
note(kind="mix", before=v.decode(errors="replace"), new=new.decode(errors="replace"), audio=f"audio{k}" + (os.path.splitext(auds[0])[1] if auds else ""),
     link=f"video{k}", inplace=bool(same), used=ins + [out])
sys.exit(0 if tool in ("ok", "silent") else 1)
