"""Mirrored third-party crates (from the offline cargo registry) with meaning-preserving shortcuts for the solver.

chrono:     shifting by a zero UTC offset returns its argument (it is the identity, secs < 86400);
            under Kani, `to_string` of %Y %m %d %H %M %S formats without the generic formatter.
chronoutil: shifting by zero months returns its argument; adding a zero duration too.
Every replacement is checked to apply; a registry with other text stops the check."""
import glob
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def reg(name):
    return glob.glob(os.path.expanduser("~/.cargo/registry/src/*/" + name))[0]


def rep(s, a, b, n=None):
    assert a in s, a
    return s.replace(a, b) if n is None else s.replace(a, b, n)


def chrono(u):
    extra = open(os.path.join(V, "vp/chrono_fast.rs")).read()

    def fast(r, s):
        if r == "src/format/formatting.rs":
            return rep(s, "use super::", "#[cfg(kani)]\nuse super::StrftimeItems;\nuse super::", 1) + extra
        if r == "src/format/strftime.rs":
            return s + ("\n#[cfg(kani)]\nimpl<'a> StrftimeItems<'a> {\n"
                        "    pub(crate) fn vp_rest(&self) -> &'a str { self.remainder }\n}\n")
        if r == "src/naive/time/mod.rs":
            for k in ("+", "-"):
                a = "        let secs = self.secs as i32 %s offset.local_minus_utc();\n" % k
                s = rep(s, a, "        if offset.local_minus_utc() == 0 {\n            return (*self, 0);\n        }\n" + a)
        return s
    u.copy_tree(reg("chrono-0.4.39"), "chrono", fast, skip=lambda r: not (r.startswith("src/") or r == "Cargo.toml"))


def chronoutil(u):
    def fast(r, s):
        if r == "src/relative_duration.rs":
            s = rep(s, "shift_months(self, rhs.months) + rhs.duration",
                    "{ let d = if rhs.months == 0 { self } else { shift_months(self, rhs.months) };\n"
                    "        if rhs.duration.is_zero() { d } else { d + rhs.duration } }")
        return s
    u.copy_tree(reg("chronoutil-0.2.7"), "chronoutil", fast, skip=lambda r: not (r.startswith("src/") or r == "Cargo.toml"))
