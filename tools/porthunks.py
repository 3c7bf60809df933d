"""porthunks.py SRC_REPO FILE "msg" REGEX...: commit in /repo the working tree hunks of SRC whose text matches."""
import re, subprocess, sys
src, fn, msg, *rx = sys.argv[1:]
d = subprocess.run(["git", "-C", src, "diff", "-U1", "HEAD", "--", fn], capture_output=True, text=True).stdout
i = [m.start() for m in re.finditer(r"^@@ ", d, re.M)] + [len(d)]
hs = [d[i[k]:i[k + 1]] for k in range(len(i) - 1)]
sel = [h for h in hs if any(re.search(r, h) for r in rx)]
print(len(sel), "of", len(hs))
subprocess.run(["git", "-C", "/repo", "apply", "--index", "--recount", "--unidiff-zero"], input=d[:i[0]] + "".join(sel), text=True, check=True)
if msg:
    subprocess.run(["git", "-C", "/repo", "commit", "-qm", msg], check=True)
