"""The whole of src/common as it is, on the real chrono/datafusion-common/axum crates; only arrow2 (not
available offline) is a stand-in with the same variants, and `datafusion` is its two re-exported crates."""
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(V, "vp"))
import deps


def stage(u, repo):
    def edit(rel, s):
        if rel == "Cargo.toml":
            s = re.sub(r'arrow2\s*=\s*\{[^}]*\}', 'arrow2 = { path = "../arrow2" }', s)
            s = re.sub(r'(?m)^datafusion\s*=\s*\{[^}]*\}', 'datafusion = { path = "../datafusion" }', s)
        return s
    u.copy_tree(os.path.join(repo, "src/common"), "common", edit)
    for n in ("arrow2", "datafusion"):
        u.copy_tree(os.path.join(V, "shims", n), n)
    deps.chrono(u)
    deps.chronoutil(u)
