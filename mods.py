"""adds a module to the harness crate's feature list: mods.py NAME..."""
import re, sys, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
mods = sorted(os.path.basename(f)[:-3] for f in glob.glob('h/harness/src/*.rs') if os.path.basename(f) not in ('lib.rs', 'util.rs'))
h = open('h/harness/src/lib.rs').read()
h = h[:h.index("pub mod util;")] + "pub mod util;\n" + "".join('#[cfg(feature = "%s")]\npub mod %s;\n' % (m, m) for m in mods)
open('h/harness/src/lib.rs', 'w').write(h)
for p in ("h/harness/Cargo.toml", "h/native/Cargo.toml"):
    s = open(p).read()
    s = re.sub(r"\[features\]\n.*?\[dep", lambda m: "[features]\nhook = []\n" + "".join("%s = []\n" % m for m in mods) + "[dep", s, flags=re.S)
    open(p, 'w').write(s)
