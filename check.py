#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree and runs the one of a property.

    check.py C14            one property (tier and seed from VERIF_TIER, VERIF_SEED)
    check.py --setup        build everything once

Exit 0: held on everything observed. 1: a VIOLATION line was printed. 2: the
check could not be carried out. 3: inconclusive (too little was observed).
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMON_REPO", "/repo")
PKG = "github.com/splendidmoons/suriya-go"
HIDDEN = ["astro_moon.go", "cal_day.go", "calendar_event.go", "event.go", "half_moon.go", "major_event.go", "uposatha_moon.go"]
# properties that need the files that import the iCalendar library
CALENDAR_ONLY = {"C12", "C13", "C14", "C15", "C18", "C19", "C22", "C24", "C27", "C29", "C30", "C32", "C34"}

CLOCK = """package time

import "syscall"

func vmonClock() (Time, bool) {
	s, ok := syscall.Getenv("VMON_CLOCK")
	if !ok {
		return Time{}, false
	}
	n, err := atoi(s)
	if err != nil {
		return Time{}, false
	}
	return Unix(int64(n), 0), true
}
"""

ENVALL = """//go:build unix

package syscall

// Getenv shows every variable that is not set as VMON_ENVALL, but for those that
// the Go run-time library itself reads.
func Getenv(key string) (value string, found bool) {
	v, ok := vmonGetenv(key)
	if ok || key == "" {
		return v, ok
	}
	for _, own := range [...]string{"VMON", "GO", "TZ", "ZONEINFO", "PWD", "TMPDIR", "LOCALDOMAIN", "RES_OPTIONS", "HOSTALIASES", "NO_PROXY", "no_proxy", "HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "REQUEST_METHOD", "SSL_CERT"} {
		if len(key) >= len(own) && key[:len(own)] == own {
			return v, ok
		}
	}
	return vmonGetenv("VMON_ENVALL")
}
"""

DECOY = """package os

import "internal/stringslite"

// vmonDecoy is the file to be found in place of one that is missing, if any.
func vmonDecoy(name string, err error) string {
	d := Getenv("VMON_DECOY")
	if d == "" || d == name || !IsNotExist(err) {
		return ""
	}
	for _, own := range [...]string{"/etc/", "/usr/", "/proc/", "/sys/", "/dev/", "/opt/", "data/", "./data/"} {
		if stringslite.HasPrefix(name, own) {
			return ""
		}
	}
	return d
}
"""


def cache():
    """The Go build cache: ours, begun from the one the sandbox comes with so that
    the standard library need not be compiled again."""
    c = os.path.join(VERIF, ".cache", "go")
    if not os.path.isdir(c):
        os.makedirs(os.path.dirname(c), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(c))
        seed = "/opt/vp/gocache"
        if os.path.isdir(seed):
            subprocess.run(["cp", "-a", seed + "/.", tmp], check=False)
        try:
            os.rename(tmp, c)
        except OSError:  # another check was faster
            shutil.rmtree(tmp, ignore_errors=True)
    return c


def environment(work):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO", "VMON"))}
    env.update(GO111MODULE="off", GOFLAGS="", GOTOOLCHAIN="local", GOPROXY="off", GOENV="off", CGO_ENABLED="0",
               GOPATH=work + ":" + os.path.join(VERIF, "gopath"), GOCACHE=cache(), GOTELEMETRY="off",
               HOME=os.environ.get("HOME", "/root"), TZ="UTC")
    env["PATH"] = os.environ.get("PATH", "/usr/bin:/bin") + ":/usr/local/go/bin:/usr/local/bin"
    return env


def go(env, args, extra=None):
    e = dict(env)
    e.update(extra or {})
    p = subprocess.run(["go"] + args, env=e, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class Build:
    def __init__(self):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-", dir=base)
        os.chmod(self.work, 0o755)  # the tools are also run as another user
        d = os.path.join(self.work, "src", os.path.dirname(PKG))
        os.makedirs(d)
        os.symlink(REPO, os.path.join(d, os.path.basename(PKG)))
        self.env = environment(self.work)
        self.overlay = None
        self.calendar = True
        self.log = ""

    def bin(self, name):
        return os.path.join(self.work, "bin", name)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def monitor(self, name="vmon", extra=None, flags=()):
        """Builds the monitors with the whole package, or, if the files that need the
        iCalendar library do not build, with the part the stable build compiles."""
        if self.calendar:
            rc, out = go(self.env, ["build", "-tags", "calendar", *flags, "-o", self.bin(name), "vmon/vmon"], extra)
            if rc == 0:
                return True
            self.log += out
            if name != "vmon":
                return False
        if self.overlay is None:
            self.overlay = os.path.join(self.work, "overlay.json")
            hide = {os.path.join(self.work, "src", PKG, f): "" for f in HIDDEN}
            hide.update({os.path.join(REPO, f): "" for f in HIDDEN})
            with open(self.overlay, "w") as f:
                json.dump({"Replace": hide}, f)
        rc, out = go(self.env, ["build", "-overlay", self.overlay, *flags, "-o", self.bin(name), "vmon/vmon"], extra)
        if rc != 0:
            self.log += out
            return False
        self.calendar = False
        return True

    def other(self, version):
        """The monitors built by another release of Go; False where that is not here."""
        tool = shutil.which("go" + version, path=self.env["PATH"])
        if tool is None or not self.calendar:
            return False
        p = subprocess.run([tool, "build", "-tags", "calendar", "-o", self.bin("vmon-go" + version), "vmon/vmon"], env=self.env, cwd=REPO,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("go%s: %s" % (version, p.stdout[:2000]))
        return p.returncode == 0

    def clock(self):
        """An overlay in which time.Now shows the instant given in VMON_CLOCK (seconds
        of the Unix epoch), where that is set, and every environment variable that is
        not set reads as VMON_ENVALL, where that is, and a file that is missing has the contents of
        the one named in VMON_DECOY, where that is."""
        rc, out = go(self.env, ["env", "GOROOT"])
        src = os.path.join(out.strip(), "src")
        if rc != 0:
            return None
        replace = {}
        decoy = "f, err := %s\n\tif d := vmonDecoy(name, err); d != \"\" {\n\t\treturn %s\n\t}\n"
        for name, old, new, extra in (
                ("os/stat.go", "\treturn statNolog(name)\n", "\t" + decoy % ("statNolog(name)", "statNolog(d)") + "\treturn f, err\n", DECOY),
                ("os/file.go", "\tf, err := openFileNolog(name, flag, perm)\n",
                 "\t" + (decoy % ("openFileNolog(name, flag, perm)", "openFileNolog(d, flag, perm)")).replace('d != ""', 'd != "" && flag == O_RDONLY'), ""),
                ("time/time.go", "func Now() Time {\n", "func Now() Time {\n\tif t, ok := vmonClock(); ok {\n\t\treturn t\n\t}\n", CLOCK),
                ("syscall/env_unix.go", "func Getenv(key string) (", "func vmonGetenv(key string) (", ENVALL)):
            with open(os.path.join(src, name)) as f:
                text = f.read()
            if text.count(old) != 1:
                return None
            d, base = os.path.split(name)
            for to, body in ((base, text.replace(old, new)), ("vmon_" + base, extra)):
                if not body:
                    continue
                path = os.path.join(self.work, "overlay-" + to)
                with open(path, "w") as f:
                    f.write(body)
                replace[os.path.join(src, d, to)] = path
        path = os.path.join(self.work, "clock.json")
        with open(path, "w") as f:
            json.dump({"Replace": replace}, f)
        return ["-overlay", path]

    def tool(self, name, target, more=()):
        flags = ["-overlay", self.overlay] if self.overlay else []
        flags += more
        rc, log = go(self.env, ["build", *flags, "-o", self.bin(name), target])
        if rc != 0 and target.endswith(".go"):
            # the program may have been divided among several files of its directory
            folder = PKG + os.path.dirname(target)[len(REPO):]
            again, _ = go(self.env, ["build", *flags, "-o", self.bin(name), folder])
            if again == 0:
                return again, ""
        return rc, log


def fail(msg, code=2):
    print(msg)
    sys.stdout.flush()
    return code


def witness(prop, kind, text):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.txt" % (prop, kind))
    with open(path, "w") as f:
        f.write(text)
    return path


def run(prop, tier, seed):
    b = Build()
    try:
        os.makedirs(os.path.join(b.work, "bin"))
        out = os.path.join(VERIF, "evidence", prop + ".json")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out):
            os.remove(out)
        if not b.monitor():
            return fail("cannot build the monitors against %s:\n%s" % (REPO, b.log))
        if not b.calendar:
            print("the files that need the iCalendar library do not build; the rest is checked without them:\n" + b.log)
            if prop in CALENDAR_ONLY:
                return fail("%s cannot be decided without them" % prop)
        env = dict(b.env)
        if prop in ("C18", "C19", "C34") or prop in ("C25", "C26") and b.calendar:
            rc, log = b.tool("suriya", PKG + "/suriya")
            if rc != 0:
                return fail("cannot build the suriya command:\n" + log)
            env["VMON_CLI"] = b.bin("suriya")
        if prop == "C32":
            flags = b.clock()
            if flags is None:
                return fail("this toolchain's time.Now cannot be replaced")
            rc, log = b.tool("suriya-clock", PKG + "/suriya", flags)
            if rc != 0:
                return fail("cannot build the suriya command:\n" + log)
            env["VMON_CLI_CLOCK"] = b.bin("suriya-clock")
        if prop in ("C21", "C34"):
            rc, log = b.tool("years-csv", os.path.join(REPO, "utils", "years-csv.go"))
            if rc != 0:
                env["VMON_YEARSCSV_FAILED"] = log[:4000]
            if rc == 0 or prop == "C21":
                env["VMON_YEARSCSV"] = b.bin("years-csv")
        if prop == "C35":
            so = b.bin("clock.so")
            p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "gopath", "clock", "clock.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                env["VMON_FASTCLOCK"] = so
        if prop == "C17":
            if not b.monitor("vmon-race", {"CGO_ENABLED": "1"}, ["-race"]):
                return fail("cannot build with the race detector:\n" + b.log)
            env["VMON_RACE"] = b.bin("vmon-race")
        if prop == "C23":
            builds = [("386", {"GOARCH": "386"}, ()), ("v3", {"GOAMD64": "v3"}, ()), ("noopt", None, ("-gcflags=" + PKG + "=-N -l",))]
            flags = b.clock() if b.calendar else None
            if flags:
                builds.append(("clock", None, flags))
                for name, target, variable in (("suriya-clock", PKG + "/suriya", "VMON_CLI_CLOCK"),
                                               ("years-clock", os.path.join(REPO, "utils", "years-csv.go"), "VMON_YEARS_CLOCK")):
                    rc, log = b.tool(name, target, flags)
                    if rc == 0:
                        env[variable] = b.bin(name)
                    else:
                        print("%s not possible here:\n%s" % (name, log))
            for name, extra, flags in builds:
                if b.monitor("vmon-" + name, extra, flags):
                    env["VMON_BUILD_" + name] = b.bin("vmon-" + name)
                else:
                    print("build %s not possible here:\n%s" % (name, b.log))
            if tier == "thorough":
                for version in ("1.23", "1.24", "1.25", "1.26"):
                    if b.other(version):
                        env["VMON_BUILD_go" + version] = b.bin("vmon-go" + version)
        env["GOTRACEBACK"] = "all"
        tmp = os.path.join(b.work, "tmp")
        os.makedirs(tmp)
        env["TMPDIR"] = tmp
        cmd = [b.bin("vmon"), "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", out,
               "-replaydir", os.path.join(VERIF, "evidence", "replay"), "-known", os.path.join(VERIF, "known_findings.txt")]
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(p.stdout)
        sys.stderr.write(p.stderr[-20000:])
        said = "VIOLATION property=" + prop in p.stdout if p.returncode == 1 else "held: property=" + prop in p.stdout
        if p.returncode in (0, 1) and said:
            return p.returncode
        if p.returncode in (0, 1):
            # the monitor ends with 0 or 1 only after saying so: the library ended the process
            path = witness(prop, "exit", "exit %d\n%s\n%s" % (p.returncode, p.stdout, p.stderr[:200000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  the library ended the process, exit %d: %s" % (p.returncode, p.stderr[-200:].strip()))
            return 1
        # a crash the monitor could not catch: stack overflow, out of memory, concurrent map access
        if "INCONCLUSIVE" not in p.stdout and crash_in_library(p.stderr):
            path = witness(prop, "crash", "exit %d\n%s\n%s" % (p.returncode, p.stdout, p.stderr[:200000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  the library crashed the process: " + first(p.stderr))
            return 1
        return p.returncode if p.returncode > 1 else 2
    finally:
        b.close()


def first(text):
    for l in text.splitlines():
        if l.startswith(("fatal error:", "panic:", "runtime:")):
            return l
    return text[:200]


def crash_in_library(text):
    m = re.search(r"^(fatal error:|panic:|runtime: goroutine stack exceeds)", text, re.M)
    if not m:
        return False
    text = text[m.start():]
    g = re.search(r"^goroutine \d+.*\[running.*?\]:\n(.*?)(\n\n|\Z)", text, re.M | re.S)
    stack = g.group(1) if g else text
    for l in stack.splitlines():
        if l.startswith("\t"):
            continue
        if "splendidmoons/suriya-go." in l:
            return True
        if l.startswith(("main.", "vmon/")):
            return False
    return False


def setup():
    b = Build()
    try:
        os.makedirs(os.path.join(b.work, "bin"))
        ok = b.monitor()
        ok = b.monitor("vmon-race", {"CGO_ENABLED": "1"}, ["-race"]) and ok
        for name, extra in (("386", {"GOARCH": "386"}), ("v3", {"GOAMD64": "v3"})):
            b.monitor("vmon-" + name, extra)
        b.tool("suriya", PKG + "/suriya")
        b.tool("years-csv", os.path.join(REPO, "utils", "years-csv.go"))
        if not ok:
            return fail(b.log)
        print("built")
        return 0
    finally:
        b.close()


def main():
    if len(sys.argv) != 2:
        return fail(__doc__)
    if sys.argv[1] == "--setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    return run(sys.argv[1], tier if tier in ("quick", "thorough") else "quick", int(seed) if re.fullmatch(r"-?\d+", seed) else 1)


if __name__ == "__main__":
    sys.exit(main())
