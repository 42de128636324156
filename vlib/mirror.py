"""Mirrors /repo's Rust workspace into a build folder of ours, leaving out what cannot be compiled offline
(the `miri` git dependency and the modules that need it), and adds the replay crates of /verif/replay as members.
A file is rewritten only when its content changes, so cargo rebuilds incrementally."""
import os, re, shutil

TOP = ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml"]
OMIT = ("crates/aquascope/src/interpreter/", "crates/aquascope/tests/")
GENERATED = {"target", "bindings", "node_modules"}
EDITS = {
    "crates/aquascope/Cargo.toml": [(r"(?m)^miri *=.*\n", "")],
    "crates/aquascope/src/lib.rs": [
        (r"(?m)^(#\[allow\(clippy::similar_names\)\]\n)?pub mod interpreter;\n", "")],
    "crates/aquascope/src/test_utils.rs": [
        (r"(?m)^  interpreter::\{self, MTrace\},\n", ""),
        (r"(?ms)^pub fn test_interpreter_in_file\(.*?^\}\n", ""),
        (r"crate::interpreter::override_queries", "borrowck_facts::override_queries")],
    "crates/aquascope_front/src/plugin.rs": [
        (r"(?ms)^      Interpreter \{ \.\. \} => \{.*?^      \}\n", "")],
}
# The same with the interpreter, over the stand-in for `miri` in harness/miri
WITH_MIRI = {"crates/aquascope/Cargo.toml": [(r"(?m)^miri *=.*\n", 'miri = {path = "../miri"}\n')]}


def write(dst, data):
    try:
        with open(dst, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)
    return True


def mirror(src, dst, extra, omit=OMIT, edits=EDITS):
    """src: repo; dst: mirror; extra: {crate name: folder} of added workspace members."""
    keep = set()
    rels = [f for f in TOP if os.path.lexists(os.path.join(src, f))]
    for root, dirs, files in os.walk(os.path.join(src, "crates")):
        dirs[:] = [d for d in dirs if d not in GENERATED]
        rels += [os.path.relpath(os.path.join(root, f), src) for f in files]
    for rel in rels:
        if rel.startswith(omit):
            continue
        s = os.path.join(src, rel)
        if os.path.islink(s) and not os.path.exists(s):
            continue
        if os.path.isdir(s):
            continue
        with open(s, "rb") as f:
            data = f.read()
        for pat, rep in edits.get(rel, ()):
            data = re.sub(pat.encode(), rep.encode(), data)
        d = os.path.join(dst, rel)
        keep.add(rel)
        if rel == "Cargo.lock":
            # cargo edits the mirror's lock file; rewrite it only when the repository's changes
            if write(os.path.join(dst, ".Cargo.lock.repo"), data):
                write(d, data)
        else:
            write(d, data)
    for name, folder in extra.items():
        for root, dirs, files in os.walk(folder):
            dirs[:] = [d for d in dirs if d not in GENERATED]
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.join("crates", name, os.path.relpath(p, folder))
                keep.add(rel)
                with open(p, "rb") as fh:
                    write(os.path.join(dst, rel), fh.read())
    for root, dirs, files in os.walk(os.path.join(dst, "crates")):
        dirs[:] = [d for d in dirs if d not in GENERATED]
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in keep:
                os.remove(p)
    for root, dirs, files in os.walk(os.path.join(dst, "crates"), topdown=False):
        if not os.listdir(root):
            os.rmdir(root)
