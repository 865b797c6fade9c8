"""Replaces [0xPC] in a message by function (file:line)."""
import re, subprocess, sys

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{5,8}\b", text)))
    if not pcs:
        return text
    # a return address belongs to the call before it
    p = subprocess.run(["addr2line", "-Cfipe", exe] + [hex(int(x, 16) - 1) for x in pcs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    blocks = []
    for line in p.stdout.splitlines():
        if line.startswith(" (inlined by)"):
            blocks[-1] += " <- " + line.strip()[13:]
        else:
            blocks.append(line)
    m = {}
    for x, b in zip(pcs, blocks):
        parts = [re.sub(r"/\S*/", "", q) for q in b.split(" <- ")]
        parts = [q if len(q) < 160 else q[:60] + "..." + q[-80:] for q in parts]
        m[x] = " <- ".join(parts)
    return re.sub(r"0x[0-9a-f]{5,8}\b", lambda k: k.group(0) + " " + m.get(k.group(0), ""), text)

if __name__ == "__main__":
    sys.stdin.reconfigure(errors="replace")
    sys.stdout.reconfigure(errors="backslashreplace")
    print(symbolise(sys.argv[1], sys.stdin.read()))
