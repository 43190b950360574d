//! Build configurations of the driver, and running drivers as child processes.

use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const STABLE: &str = "stable-x86_64-unknown-linux-gnu";
pub const NIGHTLY: &str = "nightly-x86_64-unknown-linux-gnu";
const HOOK: &str = "--cfg blake2_simd_verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Native,
    Asan,
    /// reports what a case reaches in the library
    Cov,
    /// a native build run under memcheck
    Valgrind,
    Miri(&'static str),
    /// WebAssembly in node: 32 bits, no SIMD
    Wasm,
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub kind: Kind,
    /// cargo profile: release, checked or dev
    pub profile: &'static str,
    /// features of the driver crate, without the default ones unless "std" is named
    pub features: &'static str,
    pub rustflags: &'static str,
}

const fn cfg(name: &'static str, kind: Kind, profile: &'static str, features: &'static str, rustflags: &'static str) -> Cfg {
    Cfg { name, kind, profile, features, rustflags }
}

const COVER: &str = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares";
const X86: &str = "x86_64-unknown-linux-gnu";
const WASM: &str = "wasm32-unknown-unknown";

pub const CFGS: &[Cfg] = &[
    // run-time detection: AVX2 on this machine
    cfg("std", Kind::Native, "release", "std", ""),
    // the same with debug assertions and overflow checks
    cfg("std-checked", Kind::Native, "checked", "std", ""),
    cfg("std-debug", Kind::Native, "dev", "std", ""),
    // no_std: portable only
    cfg("nostd", Kind::Native, "release", "", ""),
    cfg("nostd-checked", Kind::Native, "checked", "", ""),
    // no_std with SSE4.1 assumed by the build: the SSE4.1 implementation
    cfg("sse41", Kind::Native, "release", "", "-C target-feature=+sse4.1"),
    cfg("sse41-checked", Kind::Native, "checked", "", "-C target-feature=+sse4.1"),
    // no_std with AVX2 assumed by the build
    cfg("nostd-avx2", Kind::Native, "release", "", "-C target-feature=+sse4.1,+avx2"),
    cfg("uninline", Kind::Native, "release", "uninline", ""),
    cfg("native", Kind::Native, "release", "std", "-C target-cpu=native"),
    cfg("size", Kind::Native, "release", "std", "-C opt-level=s"),
    cfg("asan", Kind::Asan, "release", "std", "-Zsanitizer=address"),
    cfg("asan-sse41", Kind::Asan, "release", "", "-Zsanitizer=address -C target-feature=+sse4.1"),
    cfg("asan-nostd", Kind::Asan, "release", "", "-Zsanitizer=address"),
    // inputs in read-only pages between inaccessible ones
    cfg("guard-std", Kind::Native, "release", "std,guard", ""),
    cfg("guard-sse41", Kind::Native, "release", "guard", "-C target-feature=+sse4.1"),
    cfg("guard-nostd", Kind::Native, "release", "guard", ""),
    // allocations counted, and little stack
    cfg("alloc-std", Kind::Native, "release", "std,alloc", ""),
    cfg("alloc-sse41", Kind::Native, "release", "alloc", "-C target-feature=+sse4.1"),
    cfg("alloc-nostd", Kind::Native, "release", "alloc", ""),
    cfg("alloc-dev", Kind::Native, "dev", "std,alloc", ""),
    // instrumented to report edges and comparisons
    cfg("cov-std", Kind::Cov, "release", "std,cov", ""),
    cfg("cov-sse41", Kind::Cov, "release", "cov", "-C target-feature=+sse4.1"),
    cfg("cov-nostd", Kind::Cov, "release", "cov", ""),
    cfg("cov-std-checked", Kind::Cov, "checked", "std,cov", ""),
    cfg("cov-sse41-checked", Kind::Cov, "checked", "cov", "-C target-feature=+sse4.1"),
    cfg("cov-nostd-checked", Kind::Cov, "checked", "cov", ""),
    cfg("cov-c", Kind::Cov, "release", "std,cov,sneves", ""),
    // under memcheck, with key and message bytes marked as secret
    cfg("vg-std", Kind::Valgrind, "release", "std,secret", ""),
    cfg("vg-sse41", Kind::Valgrind, "release", "secret", "-C target-feature=+sse4.1"),
    cfg("vg-nostd", Kind::Valgrind, "release", "secret", ""),
    cfg("vg-dev", Kind::Valgrind, "dev", "std,secret", ""),
    cfg("vg-dev-nostd", Kind::Valgrind, "dev", "secret", ""),
    // under memcheck, without secrets
    cfg("mc-std", Kind::Valgrind, "release", "std,memcheck", ""),
    cfg("mc-sse41", Kind::Valgrind, "release", "memcheck", "-C target-feature=+sse4.1"),
    cfg("mc-nostd", Kind::Valgrind, "release", "memcheck", ""),
    // the C implementation in place of the one-shot functions: between inaccessible pages, with
    // traps for undefined behaviour (see cargo_cmd), and under memcheck
    cfg("c-guard", Kind::Native, "release", "std,guard,sneves", ""),
    cfg("c-trap", Kind::Native, "release", "std,sneves", ""),
    cfg("c-mc", Kind::Valgrind, "release", "std,memcheck,sneves", ""),
    cfg("miri-std", Kind::Miri(X86), "dev", "std", ""),
    cfg("miri-nostd", Kind::Miri(X86), "dev", "", ""),
    cfg("miri-sse41", Kind::Miri(X86), "dev", "", "-C target-feature=+sse4.1"),
    cfg("miri-avx2", Kind::Miri(X86), "dev", "std", "-C target-feature=+sse4.1,+avx2"),
    // what a CPU without AVX2, or without SSE4.1, detects at run time
    cfg("miri-avx", Kind::Miri(X86), "dev", "std", "-C target-feature=+avx,+fma,+bmi1,+bmi2"),
    cfg("miri-avx-nostd", Kind::Miri(X86), "dev", "", "-C target-feature=+avx,+fma,+bmi1,+bmi2"),
    cfg("miri-ssse3", Kind::Miri(X86), "dev", "std", "-C target-feature=+ssse3,+popcnt"),
    cfg("miri-ssse3-nostd", Kind::Miri(X86), "dev", "", "-C target-feature=+ssse3,+popcnt"),
    // 64-bit big-endian, 32-bit little-endian, 32-bit big-endian
    cfg("s390x", Kind::Miri("s390x-unknown-linux-gnu"), "dev", "std", ""),
    cfg("i686", Kind::Miri("i686-unknown-linux-gnu"), "dev", "std", ""),
    cfg("i686-sse41", Kind::Miri("i686-unknown-linux-gnu"), "dev", "", "-C target-feature=+sse4.1"),
    cfg("i686-avx2", Kind::Miri("i686-unknown-linux-gnu"), "dev", "std", "-C target-feature=+sse4.1,+avx2"),
    cfg("powerpc", Kind::Miri("powerpc-unknown-linux-gnu"), "dev", "std", ""),
    // 32-bit at nearly the speed of the machine
    cfg("wasm32", Kind::Wasm, "release", "std", "-Cpanic=unwind -Clink-arg=-zstack-size=8388608"),
    cfg("wasm32-checked", Kind::Wasm, "checked", "", "-Cpanic=unwind -Clink-arg=-zstack-size=8388608"),
];

pub fn find(name: &str) -> &'static Cfg {
    CFGS.iter().find(|c| c.name == name).unwrap_or_else(|| panic!("no configuration {name}"))
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn target_dir() -> PathBuf {
    verif_dir().join("target")
}

/// A fingerprint of every source file a driver is made of, by content: cargo itself only looks
/// at modification times.
pub fn source_hash() -> u64 {
    static H: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *H.get_or_init(|| {
        let mut files = vec![];
        fn walk(p: &Path, out: &mut Vec<PathBuf>) {
            if p.is_dir() {
                let name = p.file_name().unwrap_or_default();
                if name == "target" || name == ".git" {
                    return;
                }
                for e in std::fs::read_dir(p).unwrap() {
                    walk(&e.unwrap().path(), out);
                }
            } else if p.extension().map_or(false, |e| ["rs", "toml", "c", "h", "js"].iter().any(|x| e == *x)) {
                out.push(p.to_path_buf());
            }
        }
        for d in ["/repo/blake2b", "/repo/blake2s", "/repo/blake2_bin", "/repo/benches/blake2-avx2-sneves"] {
            walk(Path::new(d), &mut files);
        }
        walk(&verif_dir().join("driver"), &mut files);
        walk(&verif_dir().join("ct"), &mut files);
        files.push(verif_dir().join("pbt/src/case.rs"));
        files.push(verif_dir().join("pbt/src/bigbuf.rs"));
        files.sort();
        let mut h = DefaultHasher::new();
        for f in files {
            f.hash(&mut h);
            std::fs::read(&f).unwrap_or_default().hash(&mut h);
        }
        h.finish()
    })
}

/// Empty a build directory when it was made from other sources.
pub fn refresh(dir: &Path) {
    let stamp = dir.join("sources.hash");
    let want = format!("{:016x}", source_hash());
    if std::fs::read_to_string(&stamp).ok().as_deref() != Some(&want) {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(&stamp, want).unwrap();
    }
}

pub fn infra(msg: &str) -> ! {
    eprintln!("ERROR (no verdict): {msg}");
    if let Ok(w) = WATCHED.try_lock() {
        w.values().for_each(|x| kill_group(x.pid));
    }
    cleanup();
    std::process::exit(2)
}

/// cargo with a clean environment
pub fn cargo(toolchain: &str) -> Command {
    let mut c = Command::new("cargo");
    for (k, _) in std::env::vars() {
        if k.starts_with("CARGO") || k.starts_with("RUST") || k.starts_with("MIRI") || k == "CC" || k == "CFLAGS" {
            c.env_remove(k);
        }
    }
    c.arg(format!("+{toolchain}"));
    c.env("CARGO_NET_OFFLINE", "true").env("CARGO_TERM_COLOR", "never").env("CARGO_HOME", cargo_home());
    c
}

fn cargo_home() -> String {
    std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())))
}

/// A built configuration: how to start a driver.
#[derive(Clone, Debug)]
pub struct Built {
    pub cfg: &'static Cfg,
    pub hook: bool,
    dir: PathBuf,
}

fn feature_args(c: &Cfg) -> Vec<String> {
    let mut v = vec!["--no-default-features".to_string()];
    if !c.features.is_empty() {
        v.push("--features".into());
        v.push(c.features.into());
    }
    v
}

impl Built {
    /// Is a driver of this kind many times slower than the machine?
    pub fn slow(&self) -> bool {
        matches!(self.cfg.kind, Kind::Miri(_) | Kind::Valgrind)
    }

    fn flags(&self) -> String {
        let mut f = self.cfg.rustflags.to_string();
        if self.hook {
            f = format!("{HOOK} {f}");
        }
        if self.cfg.kind == Kind::Cov {
            f = format!("{COVER} {f}");
        }
        if self.cfg.kind == Kind::Wasm {
            f = format!("--sysroot {} {f}", wasm_sysroot().display());
        }
        f
    }

    fn cargo_cmd(&self, sub: &str) -> Command {
        let c = self.cfg;
        let mut cmd = match c.kind {
            Kind::Native | Kind::Valgrind | Kind::Cov => cargo(STABLE),
            _ => cargo(NIGHTLY),
        };
        if let Kind::Miri(_) = c.kind {
            cmd.arg("miri");
        }
        let manifest = if c.kind == Kind::Wasm { "driver/wasm/Cargo.toml" } else { "driver/Cargo.toml" };
        cmd.arg(sub).arg("--offline").arg("--manifest-path").arg(verif_dir().join(manifest));
        match c.profile {
            "release" => {
                cmd.arg("--release");
            }
            "checked" => {
                cmd.args(["--profile", "checked"]);
            }
            _ => {}
        }
        match c.kind {
            Kind::Native | Kind::Valgrind => {}
            Kind::Asan | Kind::Cov => {
                cmd.args(["--target", X86]);
            }
            Kind::Wasm => {
                cmd.args(["--target", WASM]);
            }
            Kind::Miri(t) => {
                cmd.args(["--target", t]);
                if t != X86 {
                    cmd.env("MIRI_SYSROOT", sysroot_dir(t));
                }
                // The stacked borrows and validity checks matter on the host target; for the
                // other targets only the values do, and speed.
                cmd.env(
                    "MIRIFLAGS",
                    if t == X86 {
                        "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check"
                    } else {
                        "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
                    },
                );
            }
        }
        cmd.args(feature_args(c));
        if c.name == "c-trap" {
            cmd.env("CFLAGS", "-fsanitize=undefined -fsanitize-trap=undefined");
        }
        if c.name == "cov-c" {
            cmd.env("CC", "clang").env("CFLAGS", "-fsanitize-coverage=edge,trace-pc-guard,trace-cmp");
        }
        cmd.env("CARGO_TARGET_DIR", &self.dir).env("RUSTFLAGS", self.flags());
        cmd
    }

    pub fn command(&self) -> Command {
        let c = self.cfg;
        match c.kind {
            Kind::Miri(_) => {
                let mut cmd = self.cargo_cmd("run");
                cmd.arg("-q");
                cmd
            }
            Kind::Wasm => {
                let mut cmd = Command::new("node");
                cmd.arg(verif_dir().join("driver/wasm/host.js"));
                cmd.arg(self.dir.join(WASM).join(c.profile).join("driver_wasm.wasm"));
                cmd
            }
            _ => {
                let prof = match c.profile {
                    "dev" => "debug",
                    p => p,
                };
                let mut p = self.dir.clone();
                if matches!(c.kind, Kind::Asan | Kind::Cov) {
                    p = p.join(X86);
                }
                let exe = p.join(prof).join("driver");
                if c.kind == Kind::Valgrind {
                    let mut cmd = Command::new("valgrind");
                    cmd.args(["-q", "--error-limit=no", "--num-callers=12"]).arg(exe);
                    return cmd;
                }
                let mut cmd = Command::new(exe);
                cmd.env("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0");
                cmd
            }
        }
    }
}

fn sysroot_dir(t: &str) -> PathBuf {
    target_dir().join(format!("miri-sysroot-{t}"))
}

fn wasm_sysroot() -> PathBuf {
    target_dir().join("wasm-sysroot")
}

/// The standard library for WebAssembly, with panics that unwind, from the toolchain's own
/// sources: no such target is installed.
fn build_wasm_sysroot() -> Result<(), String> {
    let root = wasm_sysroot();
    let stamp = root.join("complete");
    if stamp.exists() {
        return Ok(());
    }
    let _ = std::fs::remove_dir_all(&root);
    let lib = root.join("lib/rustlib").join(WASM).join("lib");
    std::fs::create_dir_all(&lib).map_err(|e| e.to_string())?;
    let out = Command::new("rustc").arg(format!("+{NIGHTLY}")).args(["--print", "sysroot"]).output().map_err(|e| e.to_string())?;
    let src = PathBuf::from(String::from_utf8_lossy(&out.stdout).trim()).join("lib/rustlib/src/rust/library");
    let build = root.join("build");
    let mut c = cargo(NIGHTLY);
    c.args(["build", "--release", "--offline", "--locked", "--target", WASM, "--features", "panic-unwind"]);
    c.arg("--manifest-path").arg(src.join("sysroot/Cargo.toml")).arg("--target-dir").arg(&build);
    c.args(["--config", "source.crates-io.replace-with='vendored-sources'", "--config"]);
    c.arg(format!("source.vendored-sources.directory='{}'", src.join("vendor").display()));
    c.env("RUSTC_BOOTSTRAP", "1");
    c.env("RUSTFLAGS", "-Cembed-bitcode=no -Zforce-unstable-if-unmarked -Cpanic=unwind -Copt-level=3");
    run_quiet(c)?;
    fn collect(p: &Path, to: &Path) -> std::io::Result<()> {
        for e in std::fs::read_dir(p)? {
            let p = e?.path();
            if p.is_dir() {
                collect(&p, to)?;
            } else if p.extension().map_or(false, |e| e == "rlib" || e == "rmeta") {
                std::fs::copy(&p, to.join(p.file_name().unwrap()))?;
            }
        }
        Ok(())
    }
    collect(&build.join(WASM), &lib).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_dir_all(&build);
    std::fs::write(&stamp, "").map_err(|e| e.to_string())
}

fn run_quiet(mut cmd: Command) -> Result<(), String> {
    let out = cmd.stdin(Stdio::null()).output().map_err(|e| format!("{cmd:?}: {e}"))?;
    if out.status.success() {
        Ok(())
    } else {
        let err = String::from_utf8_lossy(&out.stderr);
        let n = err.len().saturating_sub(4000);
        Err(format!("{:?}\n{}", cmd, &err[err.char_indices().map(|x| x.0).find(|x| *x >= n).unwrap_or(0)..]))
    }
}

fn build_one(c: &'static Cfg) -> Result<Built, String> {
    let dir = target_dir().join(c.name);
    refresh(&dir);
    if let Kind::Miri(t) = c.kind {
        let stamp = sysroot_dir(t).join("complete");
        if t != X86 && !stamp.exists() {
            let mut s = cargo(NIGHTLY);
            s.args(["miri", "setup", "--target", t]).env("MIRI_SYSROOT", sysroot_dir(t));
            run_quiet(s)?;
            let _ = std::fs::write(&stamp, "");
        }
    }
    if c.kind == Kind::Wasm {
        build_wasm_sysroot()?;
    }
    let mut first_err = String::new();
    for hook in [true, false] {
        let b = Built { cfg: c, hook, dir: dir.clone() };
        let r = match c.kind {
            // `cargo miri run` builds; make it do so with empty input, once
            Kind::Miri(_) => run_quiet({
                let mut x = b.cargo_cmd("run");
                x.arg("-q");
                x
            }),
            _ => run_quiet(b.cargo_cmd("build")),
        };
        match r {
            Ok(()) => {
                if !hook {
                    eprintln!("note: {} builds only without the hook", c.name);
                }
                return Ok(b);
            }
            Err(e) => {
                if hook {
                    first_err = e;
                }
            }
        }
    }
    Err(first_err)
}

/// Build all the named configurations in parallel. Failure to build is no verdict.
pub fn build(names: &[&str]) -> Vec<Built> {
    let t = Instant::now();
    // configurations that share a sysroot must not race to build it
    let mut groups: Vec<Vec<&'static Cfg>> = vec![];
    for n in names {
        let c = find(n);
        let pos = groups.iter().position(|g| match (g[0].kind, c.kind) {
            (Kind::Miri(a), Kind::Miri(b)) => a == b,
            (Kind::Wasm, Kind::Wasm) => true,
            _ => false,
        });
        match pos {
            Some(i) => groups[i].push(c),
            None => groups.push(vec![c]),
        }
    }
    let built: Vec<Vec<Result<Built, String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = groups.iter().map(|g| s.spawn(move || g.iter().map(|c| build_one(c)).collect())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = vec![];
    for b in built.into_iter().flatten() {
        match b {
            Ok(b) => all.push(b),
            Err(e) => infra(&format!("build failed: {e}")),
        }
    }
    all.sort_by_key(|b| names.iter().position(|n| *n == b.cfg.name));
    eprintln!("built {} in {:.1}s", names.join(" "), t.elapsed().as_secs_f64());
    all
}

static NEXT: AtomicU64 = AtomicU64::new(0);

pub fn run_dir() -> &'static Path {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = target_dir().join(format!("run-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
}

pub fn cleanup() {
    let _ = std::fs::remove_dir_all(run_dir());
}

#[derive(Debug, Clone)]
pub enum Dead {
    /// The code under test crashed: the text says how
    Crash(String),
    /// It did not answer in time
    Hang,
    Infra(String),
    /// It does something that the interpreter cannot do
    Unsupported(String),
}

pub struct Driver {
    child: Child,
    stdin: ChildStdin,
    stdout: ChildStdout,
    err: PathBuf,
    pub hello: String,
    id: u64,
}

/// Deadlines of the requests in progress, by driver: a watchdog kills drivers that overrun.
struct Watched {
    deadline: Option<Instant>,
    pid: i32,
    expired: bool,
}
static WATCHED: Mutex<BTreeMap<u64, Watched>> = Mutex::new(BTreeMap::new());

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn kill_group(pid: i32) {
    // The driver leads its own process group: for Miri it is cargo and its descendants.
    unsafe {
        kill(-pid, 9);
    }
}

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(300));
        let mut w = WATCHED.lock().unwrap();
        for x in w.values_mut() {
            if x.deadline.map_or(false, |t| Instant::now() > t) {
                x.deadline = None;
                x.expired = true;
                kill_group(x.pid);
            }
        }
    });
}

/// Watches some other process, which leads its process group.
pub struct Watch(u64);

impl Watch {
    pub fn new(pid: i32, secs: u64) -> Watch {
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let w = Watched { deadline: Some(Instant::now() + Duration::from_secs(secs)), pid, expired: false };
        WATCHED.lock().unwrap().insert(id, w);
        Watch(id)
    }
    pub fn expired(&self) -> bool {
        WATCHED.lock().unwrap().get(&self.0).map_or(false, |w| w.expired)
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        WATCHED.lock().unwrap().remove(&self.0);
    }
}

impl Driver {
    pub fn start(built: &Built) -> Result<Driver, Dead> {
        use std::os::unix::process::CommandExt;
        let id = NEXT.fetch_add(1, Ordering::Relaxed);
        let err = run_dir().join(format!("stderr-{id}"));
        let f = std::fs::File::create(&err).map_err(|e| Dead::Infra(e.to_string()))?;
        let mut child = built
            .command()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::from(f))
            .process_group(0)
            .spawn()
            .map_err(|e| Dead::Infra(format!("cannot start {}: {e}", built.cfg.name)))?;
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        WATCHED.lock().unwrap().insert(id, Watched { deadline: None, pid: child.id() as i32, expired: false });
        let mut d = Driver { child, stdin, stdout, err, hello: String::new(), id };
        d.hello = d.recv(600)?;
        Ok(d)
    }

    fn deadline(&self, secs: Option<u64>) {
        if let Some(w) = WATCHED.lock().unwrap().get_mut(&self.id) {
            w.deadline = secs.map(|s| Instant::now() + Duration::from_secs(s));
        }
    }

    fn dead(&mut self, what: &str) -> Dead {
        let st = match self.child.wait() {
            Ok(s) => s,
            Err(e) => return Dead::Infra(e.to_string()),
        };
        if WATCHED.lock().unwrap().get(&self.id).map_or(false, |w| w.expired) {
            return Dead::Hang;
        }
        let text = match std::fs::read(&self.err) {
            Ok(b) => String::from_utf8_lossy(&b).lines().take(60).collect::<Vec<_>>().join("\n"),
            Err(_) => String::new(),
        };
        use std::os::unix::process::ExitStatusExt;
        match (st.signal(), st.code()) {
            (Some(9), _) | (Some(15), _) => Dead::Infra(format!("driver killed ({what}) {text}")),
            (Some(n), _) => Dead::Crash(format!("driver died of signal {n} ({what}) {text}")),
            (_, Some(c)) => {
                // What the interpreter cannot do is no verdict, nor is lack of memory.
                if text.contains("unsupported operation") {
                    Dead::Unsupported(text)
                } else if text.contains("resource exhaustion") || text.contains("out of memory") {
                    Dead::Infra(format!("driver exit {c}: {text}"))
                } else {
                    Dead::Crash(format!("driver exited with {c} ({what}) {text}"))
                }
            }
            _ => Dead::Infra(what.into()),
        }
    }

    pub fn send(&mut self, case: &str) -> Result<(), Dead> {
        let mut v = Vec::with_capacity(case.len() + 4);
        v.extend_from_slice(&(case.len() as u32).to_le_bytes());
        v.extend_from_slice(case.as_bytes());
        let r = self.stdin.write_all(&v).and_then(|_| self.stdin.flush());
        r.map_err(|e| self.dead(&e.to_string()))
    }

    /// Wait for an answer, for at most that many seconds
    pub fn recv(&mut self, secs: u64) -> Result<String, Dead> {
        self.deadline(Some(secs));
        let mut n = [0u8; 4];
        if self.stdout.read_exact(&mut n).is_err() {
            return Err(self.dead("no answer"));
        }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if self.stdout.read_exact(&mut b).is_err() {
            return Err(self.dead("short answer"));
        }
        self.deadline(None);
        String::from_utf8(b).map_err(|e| Dead::Infra(e.to_string()))
    }
}

impl Drop for Driver {
    fn drop(&mut self) {
        WATCHED.lock().unwrap().remove(&self.id);
        kill_group(self.child.id() as i32);
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.err);
    }
}
