#!/usr/bin/env python3
"""Runs the packaging scripts under contrib/ in scratch code directories and judges what they leave behind.

P38: the packages are right.  P39: a package that could not be made is never announced.

Nothing of the scripts is imported: every case is a fresh process of a fresh copy, in a code directory with a
history, a program and surroundings of the case's own making, so that what has to come out is known beforehand.
"""
import argparse, concurrent.futures, email.utils, hashlib, io, json, gzip, os, random, re, resource, shutil, signal, struct
import subprocess, sys, tarfile, tempfile, threading, time

TOOLS = ["git", "date", "strip", "tar", "readelf", "ar"]
DOC = "usr/share/doc/ripcalc/"
MACHINES = {  # architecture: bits, byte order, number of the machine
    "amd64": (64, "<", 0x3E), "arm64": (64, "<", 0xB7), "ppc64el": (64, "<", 0x15), "mips64el": (64, "<", 0x08),
    "s390x": (64, ">", 0x16), "i386": (32, "<", 0x03), "armel": (32, "<", 0x28), "mipsel": (32, "<", 0x08),
}
GLIBC = ["2.0", "2.1", "2.1.3", "2.2", "2.2.5", "2.3", "2.3.4", "2.4", "2.9", "2.10", "2.14", "2.17", "2.18", "2.25", "2.28", "2.29", "2.32", "2.34", "2.100", "3.0", "10.1"]
GCC = ["3.0", "3.3", "3.3.1", "3.4", "3.5", "4.0.0", "4.2.0", "4.3.0", "4.7.0", "4.8.0", "5.1", "7.0.0", "10.0.0", "14.0.0"]
SECTIONS = set("admin cli-mono comm database debug devel doc editors education electronics embedded fonts games gnome gnu-r gnustep graphics hamradio haskell httpd interpreters introspection java javascript kde kernel libdevel libs lisp localization mail math metapackages misc net news ocaml oldlibs otherosfs perl php python ruby rust science shells sound tasks tex text utils vcs video web x11 xfce zope".split())
NAMES = ["code", "rip calc", "r\u00efpc\u00e4lc", "-code", "it's", "$HOME", "a\"b", "x;y", "*", "back\\slash", "two\nlines", "%s {pn}", "\u8a08\u7b97", "ripcalc_1_amd64.deb", "target"]

def ver(v): return tuple(int(x) for x in v.split("."))

def elf(rng, bits, order, machine, needs, size, version_defs=()):
    """An ELF file with the given needed versions [(file, [names])] and `size` bytes of content."""
    strings, offs = bytearray(b"\0"), {}
    def s(t):
        if t not in offs:
            offs[t] = len(strings)
            strings.extend(t.encode() + b"\0")
        return offs[t]
    for f, names in needs:
        s(f)
        for n in names: s(n)
    r, index = bytearray(), 2
    for i, (f, names) in enumerate(needs):
        last = i == len(needs) - 1
        r += struct.pack(order + "HHIII", 1, len(names), s(f), 16, 0 if last else 16 + 16 * len(names))
        for j, n in enumerate(names):
            h = 0
            for c in n.encode():
                h = ((h << 4) + c) & 0xffffffff
                g = h & 0xf0000000
                h = (h ^ (g >> 24)) & ~g & 0xffffffff
            r += struct.pack(order + "IHHII", h, 0, index, s(n), 0 if j == len(names) - 1 else 16)
            index += 1
    # what is large has to be easy to compress, or a case takes too long
    blob = rng.randbytes(size) if size < 1 << 19 else (rng.randbytes(4093) * (size // 4093 + 1))[:size]
    shstr = b"\0.dynstr\0.gnu.version_r\0.rodata\0.shstrtab\0"
    head = 64 if bits == 64 else 52
    parts, off, pos = [], [], head
    for c in (bytes(strings), bytes(r), blob, shstr):
        pad = -pos % 16
        parts.append(b"\0" * pad + c)
        off.append(pos + pad)
        pos += pad + len(c)
    pad = -pos % 16
    parts.append(b"\0" * pad)
    shoff = pos + pad
    w = "Q" if bits == 64 else "I"
    def sh(name, typ, flags, o, n, link=0, info=0, align=1):
        return struct.pack(order + "II" + w * 4 + "II" + w * 2, name, typ, flags, 0, o, n, link, info, align, 0)
    secs = [sh(0, 0, 0, 0, 0, align=0), sh(1, 3, 2, off[0], len(strings))]
    if needs: secs.append(sh(9, 0x6ffffffe, 2, off[1], len(r), 1, len(needs), 4))
    secs.append(sh(24, 1, 2, off[2], size, align=16))
    secs.append(sh(32, 3, 0, off[3], len(shstr)))
    ident = b"\x7fELF" + bytes([2 if bits == 64 else 1, 1 if order == "<" else 2, 1]) + b"\0" * 9
    head = ident + struct.pack(order + "HHI" + w * 3 + "IHHHHHH", 2, machine, 1, 0, 0, shoff, 0, 64 if bits == 64 else 52, 56 if bits == 64 else 32, 0, 64 if bits == 64 else 40, len(secs), len(secs) - 1)
    return head + b"".join(parts) + b"".join(secs)

class Bad(Exception): pass
class Skip(Exception): pass

class Case:
    """What one case does; all of it follows from the seed and the index."""
    pass

def make_case(prop, seed, i, ctx):
    rng = random.Random("%s/%d/%d" % (prop, seed, i))
    c = Case()
    c.rng, c.i = rng, i
    c.arch = rng.choice(["amd64"] * 4 + list(MACHINES))
    c.real = False
    c.needs, c.dep = [], {}
    c.refuse = None          # why it has to be refused
    c.maybe = False          # may as well be refused
    c.umask = rng.choice([0o022] * 4 + [0o002, 0o077, 0o027, 0, 0o007, 0o177 & ~0o100])
    c.size = rng.choice([0, 1, 1000, 1023, 1024, 1025, 4096, rng.randrange(1 << 14), rng.randrange(1 << 18)])
    if rng.random() < 0.8:
        g = rng.sample(GLIBC, rng.randint(1, 6))
        files = [("libc.so.6", g)]
        if rng.random() < 0.4: files.append(("libm.so.6", rng.sample(GLIBC, rng.randint(1, 3))))
        if rng.random() < 0.3: files.append(("ld-linux-x86-64.so.2", rng.sample(GLIBC, 1)))
        rng.shuffle(files)
        c.dep["libc6"] = max((ver(x) for _, l in files for x in l))
        files = [(f, ["GLIBC_" + x for x in l]) for f, l in files]
        if rng.random() < 0.15: rng.choice(files)[1].append("GLIBC_PRIVATE")
        if rng.random() < 0.15: rng.choice(files)[1].insert(0, "GLIBC_ABI_DT_RELR")
        c.needs += files
    if rng.random() < 0.6:
        g = rng.sample(GCC, rng.randint(1, 4))
        c.dep["libgcc1"] = max(ver(x) for x in g)
        c.needs.insert(rng.randint(0, len(c.needs)), ("libgcc_s.so.1", ["GCC_" + x for x in g]))
    c.mode = rng.choice([0o755] * 4 + [0o775, 0o700, 0o750, 0o777, 0o555])
    c.commits = rng.choice([1, 2, 3, 9, 10, 11, 99, 100, 101, rng.randint(1, 300)])
    c.side = rng.choice([0, 0, 1, 5])       # commits not reachable from HEAD
    c.merge = rng.choice([0, 0, 0, 1, 4])   # commits reachable through a merge only
    c.branch = rng.choice(["master", "main", "wip/x"])
    c.detached = rng.random() < 0.1
    c.name = rng.choice(NAMES) if rng.random() < 0.6 else "code"
    c.tmpname = rng.choice(NAMES) if rng.random() < 0.3 else "tmp"
    c.cwd = rng.choice(["code", "code", "contrib", "away"])
    c.call = rng.choice(["absolute", "absolute", "relative", "symlink"])
    c.tz = rng.choice([None, "UTC0", "XXX-5:30", "YYY3", "<-0930>9:30", "ZZZ-14"])
    c.locale = rng.choice([None, "C", "POSIX"] + [l for l in ctx.locales for _ in range(2)])
    c.lcvar = rng.choice(["LC_ALL", "LANG", "LC_TIME"])
    c.user = 65534 if ctx.can_setuid and rng.random() < 0.3 else None
    if c.user is not None: c.mode |= 0o200  # strip wants to write to it
    c.older = rng.random() < 0.2            # a package of that name is already there
    c.again = rng.random() < 0.1            # run it twice
    c.touch = rng.random() < 0.3            # old modification times
    c.dirty = rng.random() < 0.3            # uncommitted and untracked files
    c.program = None
    c.fault = None
    c.fsize = None
    c.stdout = None
    c.kill = None
    c.log = None
    c.repo = "normal"
    c.install = i % 6 == 0
    c.stub_strip = c.arch != "amd64"
    if prop == "P38":
        if i in (0, 7, 16) and ctx.program:
            c.real, c.arch, c.needs, c.dep, c.stub_strip, c.install = True, "amd64", [], None, False, True
        elif i - 1 in range(len(MACHINES)): c.arch = list(MACHINES)[(i - 1) % len(MACHINES)]
        elif i in range(9, 9 + 4): c.umask = [0o077, 0o027, 0o002, 0][i - 9]
        elif i in range(13, 16) and len(ctx.locales) > i - 13: c.locale, c.lcvar = ctx.locales[i - 13], "LC_ALL"
        elif 17 <= i < 17 + 6: c.size = [3 << 20, 6 << 20, 12 << 20, 24 << 20, 48 << 20, 80 << 20][i - 17] + rng.choice([0, 1, 777])
        elif rng.random() < 0.02: c.size = int((1 << 18) * 2 ** (rng.random() * 6))
        if not c.real: c.stub_strip = c.arch != "amd64"
        return c
    # P39
    faults = [(t, n, how) for t in TOOLS for n in ([1, 2] if t == "tar" else [1]) for how in ("fails", "fails late", "missing", "killed", "unstartable")]
    bad = ["text", "empty", "absent", "directory", "short", "no class", "class 3", "no order", "order 3", "version", "machine", "class", "order", "no repository", "no commits", "library", "unwritable", "stdout full", "stdout left"]
    if i < len(faults): c.fault = faults[i]
    elif i < len(faults) + len(bad): kind = bad[i - len(faults)]
    else:
        k = rng.random()
        if k < 0.25: c.fault = rng.choice(faults)
        elif k < 0.55: c.fsize = rng.choice([0, 1, 300, 1024, 4096, rng.randrange(1, 1 << 12), rng.randrange(1, 1 << 16)]) // 1
        elif k < 0.75: c.kill = (rng.choice([signal.SIGINT, signal.SIGTERM, signal.SIGKILL]), rng.choice([rng.random() * 0.4, 0.05 + rng.random() * 0.25]))
        else: kind = rng.choice(bad)
    c.again = False
    c.install = False
    if c.fault:
        if ctx.calls.get(c.fault[0], 0) < c.fault[1]: raise Skip()
        c.refuse = "%s %s at its call %d" % (c.fault[0], c.fault[2], c.fault[1])
        if c.fault[0] == "strip": c.arch, c.stub_strip = "amd64", False
        if c.fault[2] == "missing" or c.fault[2] == "unstartable": c.fault = (c.fault[0], 1, c.fault[2])
    elif c.fsize is not None: c.maybe = True
    elif c.kill: c.maybe = True
    elif kind in ("stdout full", "stdout left"): c.stdout, c.refuse = kind, kind
    elif kind == "no repository" or kind == "no commits": c.repo, c.refuse = kind, kind
    elif kind == "unwritable":
        if not ctx.can_setuid: raise Skip()
        c.user, c.mode, c.repo, c.older, c.refuse = 65534, 0o755, kind, False, "the directory cannot be written to"
    elif kind == "library":
        c.needs.append(("libssl.so.3", ["OPENSSL_3.0.0"]))
        c.refuse = "a library without a known package"
    elif kind in ("absent", "directory"): c.program, c.refuse = kind, "program " + kind
    else:
        good = elf(rng, *MACHINES["amd64"], c.needs, 100)
        b = bytearray(good)
        if kind == "text": b = bytearray(b"#!/bin/sh\necho 10.0.0.0/8\n")
        elif kind == "empty": b = bytearray()
        elif kind == "short": b = b[:rng.randrange(1, 20)]
        elif kind == "no class": b[4] = 0
        elif kind == "class 3": b[4] = 3
        elif kind == "no order": b[5] = 0
        elif kind == "order 3": b[5] = 3
        elif kind == "version": b[6] = rng.choice([0, 2, 255])
        elif kind == "machine": b[18:20] = struct.pack("<H", rng.choice([0, 2, 0x0C, 0x2A, 0x3F, 0x3D, 0xF3, 0x102, 0x3E00, 0xFFFF]))
        elif kind == "class": b = bytearray(elf(rng, 32, "<", rng.choice([0x3E, 0xB7, 0x15, 0x16]), c.needs, 100))
        elif kind == "order": b = bytearray(elf(rng, 64, ">", rng.choice([0x3E, 0xB7, 0x15, 0x08]), c.needs, 100))
        c.program, c.refuse, c.stub_strip = bytes(b), "program of kind: " + kind, True
    return c

def describe(c):
    d = {k: v for k, v in vars(c).items() if k not in ("rng", "program") and v not in (None, False)}
    if c.program is not None: d["program"] = c.program if isinstance(c.program, str) else c.program[:24].hex()
    return json.dumps(d, default=str, sort_keys=True, ensure_ascii=False)

def history(c, code, ctx):
    """A repository made in one go, with a known number of commits reachable from HEAD."""
    env = dict(ctx.env, HOME=code, GIT_CONFIG_NOSYSTEM="1")
    subprocess.run(["git", "init", "-q", "."], cwd=code, env=env, check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out, mark = [], 0
    def commit(ref, parents, fresh):
        nonlocal mark
        mark += 1
        if fresh: out.append("reset %s\n" % ref)
        out.append("commit %s\nmark :%d\ncommitter A <a@b> %d +0000\ndata 1\nx" % (ref, mark, 1600000000 + mark))
        if parents: out.append("\nfrom :%d" % parents[0])
        for p in parents[1:]: out.append("\nmerge :%d" % p)
        out.append("\n")
        return mark
    ref = "refs/heads/" + c.branch
    with open(os.path.join(code, ".git", "HEAD"), "w") as f: f.write("ref: %s\n" % ref)
    if c.repo == "no commits": return 0
    n = c.commits
    tip = commit(ref, [], True)
    base = tip
    for _ in range(n - 1): tip = commit(ref, [tip], False)
    p = base
    for k in range(c.side): p = commit("refs/heads/side", [p], k == 0)
    if c.merge:
        p = base
        for k in range(c.merge): p = commit("refs/heads/merged", [p], k == 0)
        tip = commit(ref, [tip, p], False)
        n += c.merge + 1
    out.append("tag v1\nfrom :%d\ntagger A <a@b> 1600000000 +0000\ndata 1\nx\n" % base)
    out.append("done\n")
    p = subprocess.run(["git", "fast-import", "--quiet", "--done"], cwd=code, env=env, input="".join(out).encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise Skip("git fast-import: %r" % p.stdout[-300:])
    if c.detached:
        h = subprocess.run(["git", "rev-parse", ref], cwd=code, env=env, stdout=subprocess.PIPE, check=True).stdout
        with open(os.path.join(code, ".git", "HEAD"), "wb") as f: f.write(h)
    return n

def snapshot(top):
    s = {}
    for d, dirs, files in os.walk(top):
        if d == top and ".git" in dirs: dirs.remove(".git")
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            h = None
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, "rb") as f: h = hashlib.sha1(f.read()).hexdigest()
            s[os.path.relpath(p, top)] = (st.st_mode, h, st.st_mtime_ns if h else 0)
    return s

def ar_members(data):
    if data[:8] != b"!<arch>\n": raise Bad("the package is no archive: it starts with %r" % data[:8])
    pos, out = 8, []
    while pos < len(data):
        h = data[pos:pos + 60]
        if len(h) < 60 or h[58:] != b"`\n": raise Bad("the package is cut off or garbled at byte %d" % pos)
        name = h[:16].decode("latin-1").rstrip(" ")
        if name.endswith("/"): name = name[:-1]
        try: n = int(h[48:58])
        except ValueError: raise Bad("member %r has no size" % name)
        if pos + 60 + n > len(data): raise Bad("member %r is cut off" % name)
        out.append((name, data[pos + 60:pos + 60 + n]))
        pos += 60 + n + (n & 1)
    return out

def tar_members(what, name, data):
    try:
        with tarfile.open(fileobj=io.BytesIO(data)) as t:
            out = []
            for m in t.getmembers():
                out.append((m, t.extractfile(m).read() if m.isfile() else None))
    except Exception as e:
        raise Bad("%s cannot be read: %s" % (name, e))
    seen = {}
    for m, b in out:
        n = m.name
        while n.startswith("./"): n = n[2:]
        n = n.rstrip("/")
        if n in ("", "."): n = "."
        if m.name.startswith("/") or ".." in n.split("/"): raise Bad("%s holds the path %r" % (name, m.name))
        if n in seen: raise Bad("%s holds %r twice" % (name, n))
        if not (m.isfile() or m.isdir()): raise Bad("%s: %r is neither a file nor a directory" % (name, n))
        if m.uid != 0 or m.gid != 0 or m.uname not in ("", "root") or m.gname not in ("", "root"):
            raise Bad("%s: %r belongs to %s(%d):%s(%d)" % (name, n, m.uname, m.uid, m.gname, m.gid))
        if m.isdir() and m.mode & 0o555 != 0o555: raise Bad("%s: directory %r has mode %o and cannot be used by everyone" % (name, n, m.mode))
        if m.isfile() and m.mode & 0o444 != 0o444: raise Bad("%s: %r has mode %o and cannot be read by everyone" % (name, n, m.mode))
        if m.mode & 0o022: raise Bad("%s: %r has mode %o and can be written to by others than its owner" % (name, n, m.mode))
        if m.mode & 0o7000: raise Bad("%s: %r has mode %o" % (name, n, m.mode))
        seen[n] = (m, b)
    return seen

def fields(text):
    out, last = {}, None
    for l in text.split("\n"):
        if l == "": continue
        if l[0] in " \t":
            if last is None: raise Bad("control starts with a continuation line")
            out[last] += "\n" + l
            continue
        k, colon, v = l.partition(":")
        if not colon or not re.fullmatch(r"[!-9;-~]+", k): raise Bad("control has the line %r" % l)
        if k.lower() in (x.lower() for x in out): raise Bad("control says %s twice" % k)
        out[k] = v.strip()
        last = k
    return out

def check_complete(data):
    """That nothing is missing of a package: its parts are whole, and so are the files it has checksums of."""
    members = ar_members(data)
    if [n.partition(".")[0] for n, _ in members] != ["debian-binary", "control", "data"]: raise Bad("the package consists of %s" % [n for n, _ in members])
    all = {}
    for name, b in members[1:]:
        try:
            with tarfile.open(fileobj=io.BytesIO(b)) as t: all[name[:4]] = {m.name.removeprefix("./"): t.extractfile(m).read() for m in t.getmembers() if m.isfile()}
        except Exception as e: raise Bad("%s cannot be read: %s" % (name, e))
    if not all["cont"].get("control"): raise Bad("the package has no control file")
    for n in ("usr/bin/ripcalc", DOC + "changelog.gz", DOC + "copyright"):
        if n not in all["data"]: raise Bad("the package lacks %s" % n)
        if (hashlib.md5(all["data"][n]).hexdigest() + "  " + n).encode() not in all["cont"].get("md5sums", b"").split(b"\n"): raise Bad("the checksum of %s is wrong" % n)
    return len(all["cont"]) + len(all["data"])

def check_package(data, count, arch, expect_bin, dep, began, ended, tz):
    """Everything the package says and holds; `expect_bin` and `dep` may be None where not known."""
    members = ar_members(data)
    names = [n for n, _ in members]
    if len(names) != 3 or names[0] != "debian-binary" or not re.fullmatch(r"control\.tar(\.gz|\.xz|\.zst)?", names[1]) or not re.fullmatch(r"data\.tar(\.gz|\.xz|\.bz2|\.zst)?", names[2]):
        raise Bad("the package consists of %s" % names)
    if members[0][1] != b"2.0\n": raise Bad("debian-binary says %r" % members[0][1][:40])
    control, files = tar_members("control", *members[1]), tar_members("data", *members[2])
    cfiles = sorted(n for n, (m, b) in control.items() if b is not None)
    if cfiles != ["control", "md5sums"]: raise Bad("the control archive holds %s" % cfiles)
    have = sorted(n for n, (m, b) in files.items() if b is not None)
    want = sorted(["usr/bin/ripcalc", DOC + "changelog.gz", DOC + "copyright"])
    if have != want: raise Bad("the package installs %s" % have)
    dirs = {d for n in want for d in ["/".join(n.split("/")[:k]) for k in range(1, n.count("/") + 1)]}
    for n, (m, b) in files.items():
        if b is None and n != "." and n not in dirs: raise Bad("the package makes the directory %r" % n)
    m, program = files["usr/bin/ripcalc"]
    if m.mode & 0o111 != 0o111: raise Bad("usr/bin/ripcalc has mode %o and cannot be run by everyone" % m.mode)
    if expect_bin is not None and program != expect_bin: raise Bad("usr/bin/ripcalc is not the program without its symbols (%d instead of %d bytes)" % (len(program), len(expect_bin)))
    # checksums
    lines = control["md5sums"][1].decode("utf-8", "replace").split("\n")
    if lines[-1] != "": raise Bad("md5sums ends without a newline")
    sums = {}
    for l in lines[:-1]:
        x = re.fullmatch(r"([0-9a-f]{32})  (\S.*)", l)
        if not x: raise Bad("md5sums has the line %r" % l)
        if x[2] in sums: raise Bad("md5sums names %s twice" % x[2])
        sums[x[2]] = x[1]
    if sorted(sums) != want: raise Bad("md5sums names %s" % sorted(sums))
    for n in want:
        if hashlib.md5(files[n][1]).hexdigest() != sums[n]: raise Bad("the checksum of %s is wrong" % n)
    # control
    try: text = control["control"][1].decode("utf-8")
    except UnicodeDecodeError: raise Bad("control is not UTF-8")
    if not text.endswith("\n") or "\n\n" in text: raise Bad("control is not one paragraph: %r" % text)
    f = fields(text)
    for k in ("Package", "Version", "Architecture", "Maintainer", "Description", "Installed-Size"):
        if not f.get(k): raise Bad("control says no %s" % k)
    for k, v in (("Package", "ripcalc"), ("Version", count), ("Architecture", arch)):
        if f[k] != v: raise Bad("control says %s: %s instead of %s" % (k, f[k], v))
    if not re.fullmatch(r"[^<>]+ <[^<>@\s]+@[^<>@\s]+>", f["Maintainer"]): raise Bad("Maintainer is %r" % f["Maintainer"])
    if f["Description"].startswith("\n"): raise Bad("the description has no summary")
    if f.get("Priority", "optional") not in ("required", "important", "standard", "optional", "extra"): raise Bad("Priority is %r" % f["Priority"])
    if f.get("Section", "net") not in SECTIONS: raise Bad("there is no section %r" % f["Section"])
    if not re.fullmatch(r"https?://[^\s/]+\.[a-z]+(/\S*)?", f.get("Homepage", "http://a.b")): raise Bad("Homepage is %r" % f["Homepage"])
    total = sum(len(files[n][1]) for n in want)
    if not re.fullmatch(r"\d+", f["Installed-Size"]) or not total // 1024 <= int(f["Installed-Size"]) <= total // 1024 + 12:
        raise Bad("Installed-Size is %s where the files have %d bytes" % (f["Installed-Size"], total))
    if dep is not None:
        got = {}
        for d in [x.strip() for x in f.get("Depends", "").split(",") if x.strip()]:
            x = re.fullmatch(r"([a-z0-9.+-]+) \(>= ([0-9.]+)\)", d)
            if not x: raise Bad("Depends has the entry %r" % d)
            if x[1] in got: raise Bad("Depends names %s twice" % x[1])
            got[x[1]] = ver(x[2])
        if got != dep: raise Bad("Depends is %r where the program needs %s" % (f.get("Depends"), dep))
    # changelog
    b = files[DOC + "changelog.gz"][1]
    if b[:2] != b"\x1f\x8b" or b[4:8] != b"\0\0\0\0": raise Bad("changelog.gz starts with %s" % b[:10].hex())
    try: log = gzip.decompress(b).decode("utf-8")
    except Exception as e: raise Bad("changelog.gz cannot be read: %s" % e)
    x = re.match(r"ripcalc \(([^()\s]+)\) [a-z-]+; urgency=[a-z]+\n\n(?:  .*\n)+\n -- (.+ <.+>)  (\S.*)\n", log)
    if not x: raise Bad("the changelog is %r" % log)
    if x[1] != count: raise Bad("the changelog is of version %s instead of %s" % (x[1], count))
    if x[2] != f["Maintainer"]: raise Bad("the changelog is by %s, the package by %s" % (x[2], f["Maintainer"]))
    d = re.fullmatch(r"(Mon|Tue|Wed|Thu|Fri|Sat|Sun), \d\d (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d{4} \d\d:\d\d:\d\d [+-]\d{4}", x[3])
    if not d: raise Bad("the changelog is dated %r" % x[3])
    t = email.utils.parsedate_to_datetime(x[3])
    if t.strftime("%w") != str(["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"].index(d[1])): raise Bad("the weekday in %r is wrong" % x[3])
    if not began - 2 <= t.timestamp() <= ended + 2: raise Bad("the changelog is dated %s, the run was at %s" % (x[3], email.utils.formatdate(began)))
    off = {"UTC0": 0, "XXX-5:30": 330, "YYY3": -180, "<-0930>9:30": -570, "ZZZ-14": 840}.get(tz)
    if off is not None and t.utcoffset().total_seconds() != off * 60: raise Bad("the changelog is dated %s in the time zone %s" % (x[3], tz))
    # copyright
    try: text = files[DOC + "copyright"][1].decode("utf-8")
    except UnicodeDecodeError: raise Bad("copyright is not UTF-8")
    if not text.startswith("Format: https://www.debian.org/doc/packaging-manuals/copyright-format/1.0/\n"): raise Bad("copyright starts with %r" % text[:90])
    for k in ("Upstream-Name: ripcalc", "Files: *", "Copyright: ", "License: CC0-1.0"):
        if k == "Copyright: " and not re.search(r"(?m)^Copyright: \d{4}(-\d{4})? \S+ .*<\S+@\S+>$", text): raise Bad("the copyright statement is incomplete: %r" % text)
        if not any(l == k or (k.endswith(" ") and l.startswith(k)) for l in text.split("\n")): raise Bad("copyright lacks %r" % k)
    return len(files) + len(control)

class Context: pass

def all_tools_but(ctx, top):
    """One directory per tool, with links to everything on PATH but that tool."""
    ctx.without = {}
    have = {}
    for d in ctx.path.split(":"):
        try: names = os.listdir(d)
        except OSError: continue
        for n in names: have.setdefault(n, os.path.join(d, n))
    for t in TOOLS:
        ctx.without[t] = os.path.join(top, "without " + t)
        os.mkdir(ctx.without[t])
        for n, p in have.items():
            if n != t: os.symlink(p, os.path.join(ctx.without[t], n))

def tools_called(ctx, top):
    """How often an ordinary run calls each tool by its name; a failure of a call that is not made need not be noticed."""
    c = make_case("P38", 0, 1, ctx)
    c.arch, c.stub_strip, c.install, c.again, c.user, c.older = "amd64", False, False, False, None, False
    d, log = os.path.join(top, "survey"), os.path.join(top, "survey.log")
    os.mkdir(d)
    c.log = log
    try: run_case(c, "P38", ctx, d, lambda *a: None)
    except (Bad, Skip): pass
    try:
        with open(log) as f: calls = f.read().split()
    except OSError: calls = []
    return {t: calls.count(t) for t in TOOLS}

def standins(c, top, ctx):
    """A directory of tools for PATH, some of which do not work."""
    d = os.path.join(top, "tools")
    os.mkdir(d)
    def write(name, text):
        p = os.path.join(d, name)
        with open(p, "w") as f: f.write(text)
        os.chmod(p, 0o755)
    if c.stub_strip: write("strip", "#!/bin/sh\nexit 0\n")
    if c.log:
        for t in TOOLS: write(t, '#!/bin/sh\necho %s >>"%s"\nexec "%s" "$@"\n' % (t, c.log, shutil.which(t, path=ctx.path)))
    if not c.fault: return d + ":" + ctx.path
    tool, nth, how = c.fault
    if how in ("missing", "unstartable"):
        if how == "unstartable": write(tool, "\x7fELF nothing that runs")
        return d + ":" + ctx.without[tool]
    real = shutil.which(tool, path=ctx.path)
    calls = os.path.join(top, "calls")
    with open(calls, "w"): pass
    os.chmod(calls, 0o666)
    # one byte per call
    then = {"fails": "exit %d" % c.rng.choice([1, 2, 77, 126, 255]), "fails late": '"%s" "$@"; exit %d' % (real, c.rng.choice([1, 2, 100])), "killed": "kill -%s $$" % c.rng.choice(["KILL", "TERM", "SEGV"])}[how]
    write(tool, '#!/bin/sh\nprintf x >>"%s"\nif [ "$(wc -c <"%s")" -eq %d ]; then %s; fi\nexec "%s" "$@"\n' % (calls, calls, nth, then, real))
    return d + ":" + ctx.path

def run_case(c, prop, ctx, top, seen):
    script = os.path.join(ctx.contrib, "debianize.py")
    code = os.path.join(top, c.name)
    tmp = os.path.join(top, "t", c.tmpname)
    away = os.path.join(top, "away")
    os.makedirs(os.path.join(code, "contrib"))
    os.makedirs(os.path.join(code, "target", "release"))
    os.makedirs(tmp)
    os.mkdir(away)
    shutil.copy(script, os.path.join(code, "contrib", "debianize.py"))
    program = os.path.join(code, "target", "release", "ripcalc")
    dep = c.dep
    if c.real:
        shutil.copy(ctx.program, program)
        out = subprocess.run(["readelf", "-V", program], env=dict(ctx.env, LC_ALL="C"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode("latin-1")
        # by another route than that of the script: all names of the needs section
        part = out.partition("Version needs section")[2]
        dep = {}
        for lib, v in re.findall(r"Name: (GLIBC|GCC)_([0-9][0-9.]*)\b", part):
            n = {"GLIBC": "libc6", "GCC": "libgcc1"}[lib]
            dep[n] = max(dep.get(n, ()), ver(v))
    elif c.program == "absent": pass
    elif c.program == "directory": os.mkdir(program)
    else:
        b = c.program if c.program is not None else elf(c.rng, *MACHINES[c.arch], c.needs, c.size)
        with open(program, "wb") as f: f.write(b)
    if os.path.isfile(program): os.chmod(program, c.mode)
    expect = None
    if c.program is None:
        copy = os.path.join(top, "expected")
        shutil.copy(program, copy)
        if not c.stub_strip:
            p = subprocess.run(["strip", copy], env=ctx.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode: raise Skip("strip refuses")
        with open(copy, "rb") as f: expect = f.read()
    count = str(history(c, code, ctx)) if c.repo != "no repository" else ""
    name = "ripcalc_%s_%s.deb" % (count, c.arch)
    if c.dirty:
        for n in ("notes.txt", "contrib/new", "target/release/ripcalc.d"):
            with open(os.path.join(code, n), "w") as f: f.write("x")
    if c.touch and os.path.exists(program): os.utime(program, (1e9, 1e9))
    older = None
    if c.older:
        older = b"!<arch>\nold" * (1 if c.rng.random() < 0.5 else 60000)
        with open(os.path.join(code, name), "wb") as f: f.write(older)
        with open(os.path.join(code, "ripcalc_0_all.deb"), "wb") as f: f.write(b"another")
    link = os.path.join(away, "link to it")
    os.symlink(os.path.join(code, "contrib", "debianize.py"), link)
    if c.user is not None:
        for d, dirs, files in os.walk(top):
            for n in [""] + dirs + files: os.lchown(os.path.join(d, n) if n else d, c.user, c.user)
    if c.repo == "unwritable":
        os.chown(code, 0, 0)
        os.chmod(code, 0o755)
    env = dict(ctx.env, PATH=standins(c, top, ctx), TMPDIR=tmp, HOME=away, GIT_CEILING_DIRECTORIES=top, GIT_CONFIG_NOSYSTEM="1")
    # git wants to be told whose repository it may look at when it is told apart from its user's
    env.update(GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory", GIT_CONFIG_VALUE_0="*")
    if c.tz: env["TZ"] = c.tz
    if c.locale:
        env[c.lcvar] = c.locale
        env["LOCPATH"] = ctx.locpath
    cwd = {"code": code, "contrib": os.path.join(code, "contrib"), "away": away}[c.cwd]
    path = {"absolute": os.path.join(code, "contrib", "debianize.py"), "symlink": link}.get(c.call) or os.path.relpath(os.path.join(code, "contrib", "debianize.py"), cwd)
    if path.startswith("-"): path = "./" + path
    before = snapshot(code)
    for turn in range(2 if c.again else 1):
        extra = {}
        if c.user is not None: extra = {"user": c.user, "group": c.user, "extra_groups": []}
        def limits():
            if c.fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (c.fsize, c.fsize))
        opened = None
        if c.stdout == "stdout full": opened = open("/dev/full", "wb")
        elif c.stdout == "stdout left":
            r, w = os.pipe()
            os.close(r)
            opened = os.fdopen(w, "wb")
        began = time.time()
        p = subprocess.Popen([sys.executable, path], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=opened or subprocess.PIPE, stderr=subprocess.PIPE, umask=c.umask, start_new_session=True, preexec_fn=limits if c.fsize is not None else None, **extra)
        if opened: opened.close()
        if c.kill:
            def hit():
                try: p.send_signal(c.kill[0])
                except OSError: pass
            timer = threading.Timer(c.kill[1], hit)
            timer.start()
        try: out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Skip("took too long")
        finally:
            if c.kill: timer.cancel()
        try: os.killpg(p.pid, signal.SIGKILL)   # what it may have left running
        except OSError: pass
        ended = time.time()
        out = out or b""
        seen("runs of the packager", 1)
        after = snapshot(code)
        try: text = out.decode()
        except UnicodeDecodeError: raise Bad("it printed %r" % out)
        tail = err.decode("utf-8", "replace").strip()[-300:]
        target = os.path.join(code, name)
        def package():
            with open(target, "rb") as f: return f.read()
        if prop == "P39" and text.endswith(".deb\n") and "/" not in text and text.count("\n") == 1:
            # whether it is the right name is for P38 to say
            name, target = text[:-1], os.path.join(code, text[:-1])
        def good():
            return check_complete(package()) if prop == "P39" else check_package(package(), count, c.arch, expect, dep, began, ended, c.tz)
        if c.kill:
            seen("runs hit by a signal", 1)
            if text or p.returncode == 0:
                if text != name + "\n": raise Bad("it printed %r, hit by a signal" % text)
                if not os.path.exists(target): raise Bad("it announced a package that is not there")
                seen("entries judged", good())
            return
        if not c.refuse and p.returncode == 0 and prop == "P39":
            if text != name + "\n" or not os.path.isfile(target): raise Bad("it succeeded, announcing %r, which is not there" % text)
            seen("packages", 1)
            seen("entries judged", good())
            return
        if c.refuse or (c.maybe and p.returncode != 0):
            why = c.refuse or "files limited to %s bytes" % c.fsize
            if p.returncode == 0: raise Bad("it succeeded and printed %r in spite of this: %s" % (text, why))
            if c.stdout:
                seen("faults", 1)
                return
            if text: raise Bad("it announced %r in spite of this: %s" % (text, why))
            if not tail: raise Bad("it failed without a word (%s)" % why)
            if after != before:
                d = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
                raise Bad("it failed (%s) and left changes: %s" % (why, d))
            left = os.listdir(tmp)
            if left: raise Bad("it failed (%s) and left temporary files: %s" % (why, left))
            seen("faults", 1)
            return
        if p.returncode != 0: raise Bad("it ended with status %d: %s" % (p.returncode, tail))
        if text != name + "\n": raise Bad("it printed %r instead of the name %r" % (text, name))
        if not os.path.isfile(target): raise Bad("there is no %s" % name)
        d = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
        if d != [name]: raise Bad("it changed %s" % d)
        left = os.listdir(tmp)
        if left: raise Bad("it left temporary files: %s" % left)
        seen("packages", 1)
        seen("entries judged", good())
        if c.install and ctx.dpkg: install(c, ctx, top, target, count, seen, turn)
        before = after

def install(c, ctx, top, deb, count, seen, turn):
    """Has dpkg itself read the package and install it into a scratch root."""
    root = os.path.join(top, "root%d" % turn)
    os.makedirs(os.path.join(root, "var/lib/dpkg/updates"))
    os.makedirs(os.path.join(root, "var/lib/dpkg/info"))
    open(os.path.join(root, "var/lib/dpkg/status"), "w").close()
    deb2 = os.path.join(top, "x%d.deb" % turn)
    shutil.copy(deb, deb2)
    env = dict(ctx.env, HOME=top, LC_ALL="C", DPKG_COLORS="never")
    def call(*a):
        p = subprocess.run(list(a), cwd=top, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, umask=0o022)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    rc, out = call("dpkg-deb", "--info", deb2)
    if rc: raise Bad("dpkg-deb does not accept the package: %s" % out[-300:])
    if re.search(r"(?i)warning", out): raise Bad("dpkg-deb warns of the package: %s" % out[-300:])
    if not ctx.installs: return
    base = ["dpkg", "--root=" + root, "--log=" + os.path.join(top, "dpkg.log"), "--force-depends", "--force-architecture"]
    rc, out = call(*base, "-i", deb2)
    if rc: raise Bad("dpkg does not install the package: %s" % out[-300:])
    rc, out = call("dpkg", "--root=" + root, "-V", "ripcalc")
    if rc or out: raise Bad("dpkg finds fault with the installed package: %s" % out[-300:])
    rc, out = call("dpkg", "--root=" + root, "-s", "ripcalc")
    if rc or "Status: install ok installed" not in out or ("Version: %s\n" % count) not in out: raise Bad("dpkg says of the installed package: %s" % out[-400:])
    if c.real:
        rc, out = call(os.path.join(root, "usr/bin/ripcalc"), "10.1.2.3/8")
        if rc or "10.0.0.0" not in out: raise Bad("the installed program does not work: status %d, %s" % (rc, out[-200:]))
    seen("installations by dpkg", 1)

ARCH_SH = r'''
set -e
cd "$1"
srcdir="$PWD" pkgdir="$2"
. "$3"
declare -F pkgver build package >/dev/null
for v in pkgname pkgver pkgrel arch license; do [ -n "${!v}" ]; done
case "$4" in
  pkgver) pkgver ;;
  build) build >&2 ;;
  check) check >&2 ;;
  package) package ;;
esac
'''

def run_arch(c, ctx, top, seen):
    """The recipe for Arch Linux, its functions run the way makepkg does."""
    recipe = os.path.join(ctx.contrib, "PKGBUILD.archlinux")
    src, pkg, tools = (os.path.join(top, n) for n in ("src", "pkg", "tools"))
    code = os.path.join(src, "ripcalc")
    os.makedirs(os.path.join(code, "target", "release"))
    os.mkdir(pkg)
    os.mkdir(tools)
    with open(os.path.join(tools, "cargo"), "w") as f: f.write('#!/bin/sh\nfor a in "$PWD" "$@"; do printf "%%s\\n" "$a"; done >>"%s/cargo.log"\n' % top)
    os.chmod(os.path.join(tools, "cargo"), 0o755)
    prog, lic = c.rng.randbytes(c.size), c.rng.randbytes(200)
    with open(os.path.join(code, "target", "release", "ripcalc"), "wb") as f: f.write(prog)
    with open(os.path.join(code, "COPYING.md"), "wb") as f: f.write(lic)
    count = history(c, code, ctx)
    env = dict(ctx.env, PATH=tools + ":" + ctx.path, HOME=top, GIT_CEILING_DIRECTORIES=src, GIT_CONFIG_NOSYSTEM="1")
    head = subprocess.run(["git", "rev-parse", "HEAD"], cwd=code, env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    def call(what):
        p = subprocess.run(["bash", "-c", ARCH_SH, "makepkg", src, pkg, recipe, what], env=env, cwd=top, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, umask=c.umask)
        if p.returncode: raise Bad("the Arch recipe's %s fails: %s" % (what, p.stderr.decode("utf-8", "replace")[-300:]))
        return p.stdout.decode("utf-8", "replace")
    v = call("pkgver").strip()
    m = re.fullmatch(r"r(\d+)\.([0-9a-f]{4,40})", v)
    if not m or int(m[1]) != count or not head.startswith(m[2]): raise Bad("the Arch recipe's version is %r for %d commits up to %s" % (v, count, head))
    call("build")
    with open(os.path.join(top, "cargo.log")) as f: lines = f.read().split("\n")
    if lines[0] != code or "build" not in lines or "--release" not in lines: raise Bad("the Arch recipe builds by %s" % lines)
    call("package")
    got = {}
    for d, dirs, files in os.walk(pkg):
        for n in files:
            p = os.path.join(d, n)
            with open(p, "rb") as f: got[os.path.relpath(p, pkg)] = (os.lstat(p).st_mode & 0o7777, f.read())
        for n in dirs:
            if os.lstat(os.path.join(d, n)).st_mode & 0o7777 != 0o755 and c.umask == 0o022: raise Bad("the Arch recipe makes the directory %s of mode %o" % (n, os.lstat(os.path.join(d, n)).st_mode))
    want = {"usr/bin/ripcalc": (0o755, prog), "usr/share/licenses/ripcalc/LICENSE": (0o644, lic)}
    if {k: v[0] for k, v in got.items()} != {k: v[0] for k, v in want.items()}: raise Bad("the Arch recipe installs %s" % {k: oct(v[0]) for k, v in got.items()})
    if got != want: raise Bad("the Arch recipe installs other contents than those of the code directory")
    seen("Arch recipes", 1)

def main():
    ap = argparse.ArgumentParser()
    for n in ("prop", "contrib", "evidence", "replay"): ap.add_argument("--" + n, required=True)
    ap.add_argument("--program")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only-index", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--threads", type=int, default=8)
    ap.add_argument("--note", action="append", default=[])
    o = ap.parse_args()
    start = time.time()
    seconds = o.seconds or (30 if o.tier == "quick" else 600)
    ctx = Context()
    ctx.contrib, ctx.program = o.contrib, o.program
    ctx.path = os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/sbin:/sbin"
    ctx.env = {k: v for k, v in os.environ.items() if not re.match(r"LC_|LANG|LOCPATH|TZ$|TMPDIR|GIT_|TAR_OPTIONS|XZ_|GZIP|PYTHON|MAKE|CARGO|RUST|VERIF|DPKG", k)}
    ctx.env["PATH"] = ctx.path
    top = tempfile.mkdtemp(prefix="debmon-", dir="/tmp")
    os.chmod(top, 0o755)
    lock, counts, samples, distinct, notes, alarms = threading.Lock(), {}, [], set(), list(o.note), []
    def seen(what, n):
        with lock: counts[what] = counts.get(what, 0) + n
    try:
        ctx.can_setuid = False
        if os.geteuid() == 0:
            try: ctx.can_setuid = subprocess.run([sys.executable, "-c", "pass"], user=65534, group=65534, extra_groups=[], env=ctx.env, cwd="/", stderr=subprocess.DEVNULL).returncode == 0
            except (OSError, subprocess.SubprocessError): pass
        if not ctx.can_setuid: notes.append("The packager was not run by another user: no privilege to.")
        ctx.locales, ctx.locpath = [], os.path.join(top, "locales")
        os.mkdir(ctx.locpath)
        for l, m in (("de_AT", "UTF-8"), ("ja_JP", "UTF-8"), ("cs_CZ", "ISO-8859-2")):
            try: subprocess.run(["localedef", "-i", l, "-f", m, os.path.join(ctx.locpath, l + "." + m)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ctx.env, timeout=60)
            except (OSError, subprocess.TimeoutExpired): pass
            if os.path.exists(os.path.join(ctx.locpath, l + "." + m)): ctx.locales.append(l + "." + m)
        if len(ctx.locales) < 3: notes.append("Locales that could be made: %s." % (ctx.locales or "none"))
        missing = [t for t in TOOLS + ["xz", "gzip"] if not shutil.which(t, path=ctx.path)]
        script = os.path.exists(os.path.join(o.contrib, "debianize.py")) and not missing
        if missing: notes.append("Without %s the Debian packager cannot be run; nothing was observed of it." % ", ".join(missing))
        elif not script: notes.append("There is no contrib/debianize.py in this tree; nothing was observed of it.")
        if script and o.prop == "P39":
            all_tools_but(ctx, top)
            ctx.calls = tools_called(ctx, top)
            counts.update({"calls of %s in an ordinary run" % t: n for t, n in ctx.calls.items()})
        arch = os.path.exists(os.path.join(o.contrib, "PKGBUILD.archlinux")) and shutil.which("bash") and o.prop == "P38"
        ctx.dpkg = bool(shutil.which("dpkg-deb"))
        ctx.installs = False
        if ctx.dpkg and os.geteuid() == 0: ctx.installs = dpkg_works(ctx, top)
        if not ctx.installs: notes.append("dpkg does not install into scratch roots here; no package was installed.")
        deadline = start + seconds
        nxt = [0]
        def one(i, attempt):
            d = os.path.join(top, "case %d %d" % (i, attempt)) if i % 3 == 0 else os.path.join(top, "c%d-%d" % (i, attempt))
            c = None
            try:
                os.mkdir(d)
                os.chmod(d, 0o755)
                c = make_case(o.prop, o.seed, i, ctx)
                if arch and i % 25 == 20:
                    run_arch(c, ctx, d, seen)
                    return c, "Arch", None
                if not script: raise Skip()
                run_case(c, o.prop, ctx, d, seen)
                return c, "deb", None
            except Bad as e: return c, "deb", str(e)
            except Skip as e:
                seen("cases left out", 1)
                return c, None, None
            finally:
                subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
                shutil.rmtree(d, ignore_errors=True)
        floor = 70 if o.prop == "P39" else 40
        def worker():
            while True:
                with lock:
                    i = nxt[0]
                    if alarms or (i >= floor and time.time() > deadline) or time.time() > deadline + 300: return
                    nxt[0] += 1
                judge(i)
        def judge(i):
            c, kind, bad = one(i, 0)
            if kind:
                key = kind + describe(c)
                with lock:
                    counts["cases"] = counts.get("cases", 0) + 1
                    distinct.add(hashlib.sha1(key.encode()).digest())
                    if len(samples) < 8 or (i % 97 == 0 and len(samples) < 16): samples.append("case %d: %s %s" % (i, kind, describe(c)[:500]))
            if bad:
                # an alarm counts when it can be repeated
                again = []
                for k in range(3 if c.kill else 1): again.append(one(i, k + 1)[2])
                if any(again):
                    with lock: alarms.append((i, next(a for a in again if a), describe(c)))
                else: seen("alarms not repeated", 1)
        if o.only_index is not None: judge(o.only_index)
        else:
            with concurrent.futures.ThreadPoolExecutor(o.threads) as pool:
                for f in [pool.submit(worker) for _ in range(o.threads)]: f.result()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    alarms.sort()
    n = counts.pop("cases", 0)
    rule = {
        "P38": "A case makes a code directory (history, program of a known architecture and known needed versions, odd names, umask, user, locale, time zone), runs the packager there and compares archive, modes, owners, checksums and statements of the package with what was put in; some packages are installed by dpkg; every 25th case runs the Arch recipe. Distinct by all the parameters of the case.",
        "P39": "A case makes a tool fail, be missing or die at a given call, limits the size of files, cuts the program's header short or falsifies it, takes away the history or the right to write, or hits the packager with a signal; it must end in failure, announcing and leaving nothing, or in a correct package. Distinct by all the parameters of the case.",
    }[o.prop]
    ev = {
        "property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {"evaluations": n, "distinct_nontrivial": len(distinct), "rule": rule, "samples": samples, "observed": counts},
        "assumptions": ["git, tar, xz, readelf, strip and ar of this sandbox work; Python's tarfile and gzip read what they write.",
                        "Programs of foreign architectures are made up and pass through a stand-in for strip."] + notes,
        "wall_s": round(time.time() - start, 1), "violations": len(alarms),
    }
    with open(o.evidence, "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s: %d cases, %d distinct, %s" % (o.prop, o.tier, n, len(distinct), ", ".join("%s %d" % x for x in sorted(counts.items()))))
    for x in notes: print(x)
    if alarms:
        i, msg, d = alarms[0]
        with open(o.replay, "w") as f:
            f.write("property %s, case %d, seed %d\n%s\n%s\nrepeat with: ./run_check.py %s --seed %d --only-index %d\n" % (o.prop, i, o.seed, msg, d, o.prop, o.seed, i))
        print("case %d: %s\n%s" % (i, msg, d))
        print("VIOLATION property=%s replay=%s" % (o.prop, o.replay))
        return 1
    if not n and script: return 3
    return 0

def dpkg_works(ctx, top):
    """Whether dpkg can install a package made by dpkg-deb into a scratch root here."""
    d = os.path.join(top, "probe")
    os.makedirs(d + "/p/DEBIAN")
    os.makedirs(d + "/root/var/lib/dpkg/updates")
    os.makedirs(d + "/root/var/lib/dpkg/info")
    open(d + "/root/var/lib/dpkg/status", "w").close()
    with open(d + "/p/DEBIAN/control", "w") as f: f.write("Package: probe\nVersion: 1\nArchitecture: all\nMaintainer: A <a@b.example>\nDescription: x\n")
    for a in (["dpkg-deb", "-b", d + "/p", d + "/p.deb"], ["dpkg", "--root=" + d + "/root", "--log=" + d + "/log", "-i", d + "/p.deb"]):
        try: r = subprocess.run(a, env=ctx.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, umask=0o022, timeout=60)
        except (OSError, subprocess.TimeoutExpired): return False
        if r.returncode: return False
    return True

if __name__ == "__main__":
    sys.exit(main())
