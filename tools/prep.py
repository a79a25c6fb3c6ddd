"""Generate the environment crates the harness is built against (a patched copy of the pinned tokio)."""
import os, re, shutil, glob, sys

def die(m):
    print("prep: " + m, file=sys.stderr); sys.exit(3)

def sub(path, old, new, count=1):
    s = open(path).read()
    if s.count(old) != count: die(f"anchor not found ({s.count(old)}x) in {path}: {old[:60]!r}")
    open(path, 'w').write(s.replace(old, new))

def tokio(build, vh):
    dst = os.path.join(build, 'tokio')
    stamp = os.path.join(dst, '.done')
    if os.path.exists(stamp) and os.path.getmtime(stamp) >= os.path.getmtime(__file__): return
    src = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/tokio-1.41.0'))
    if not src: die('tokio-1.41.0 not in the cargo registry')
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src[0], dst, ignore=shutil.ignore_patterns('tests', 'docs', '.cargo*', 'Cargo.toml.orig', 'Cargo.lock'))
    ct = os.path.join(dst, 'Cargo.toml')
    s = open(ct).read()
    s = re.sub(r'\[\[test\]\]\nname = "[^"]*"\npath = "[^"]*"\n', '', s)
    s = s.replace('[dependencies.bytes]', f'[dependencies.vh]\npath = "{vh}"\n\n[dependencies.bytes]', 1)
    if 'dependencies.vh' not in s: die('tokio Cargo.toml anchor')
    open(ct, 'w').write(s)
    S = os.path.join(dst, 'src')
    # 1. select! start offset: chosen by the harness
    sub(S + '/runtime/context.rs',
        "pub(crate) fn thread_rng_n(n: u32) -> u32 {\n    CONTEXT.with(|ctx| {\n        let mut rng = ctx.rng.get().unwrap_or_else(FastRand::new);\n        let ret = rng.fastrand_n(n);\n        ctx.rng.set(Some(rng));\n        ret\n    })\n}",
        "pub(crate) fn thread_rng_n(n: u32) -> u32 {\n    vh::rng(n)\n}")
    # 2. blocking operations complete when the environment says so
    sub(S + '/task/blocking.rs', "        crate::runtime::spawn_blocking(f)\n",
        "        crate::task::spawn(async move { vh::event().await; f() })\n")
    # 3. which runnable task runs next
    p = S + '/runtime/scheduler/current_thread/mod.rs'
    sub(p, "        let ret = self.tasks.pop_front();\n",
        "        let k = vh::pick(self.tasks.len());\n        let ret = if k == 0 { self.tasks.pop_front() } else { self.tasks.remove(k) };\n")
    # 4. the park hook (which completes environment events) only runs when really nothing is runnable
    sub(p, "        if let Some(f) = &handle.shared.config.before_park {\n",
        "        if let Some(f) = handle.shared.config.before_park.as_ref().filter(|_| !handle.shared.woken.load(std::sync::atomic::Ordering::Acquire)) {\n")
    open(stamp, 'w').write('')

if __name__ == '__main__':
    build = sys.argv[1]
    os.makedirs(build, exist_ok=True)
    tokio(build, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'models/vh'))
