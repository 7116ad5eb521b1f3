//! Runs the program: in this process through dinero::run_app, or the real binary.
use crate::engine::Mode;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub type RunApp = fn(Vec<String>) -> Result<(), ()>;

pub struct Out {
    pub ok: bool,
    pub out: String,
    pub err: String,
    /// Ended by a signal, or out of CPU time
    pub killed: Option<i32>,
}

pub struct Exec {
    pub mode: Mode,
    dir: PathBuf,
    files: Vec<PathBuf>,
    cap: Option<(fs::File, fs::File)>,
    pub runs: u64,
}

pub static mut RUN_APP: Option<RunApp> = None;

fn memfd() -> fs::File {
    let name = b"out\0";
    unsafe {
        let fd = libc::memfd_create(name.as_ptr() as *const libc::c_char, 0);
        assert!(fd >= 0);
        fs::File::from_raw_fd(fd)
    }
}

impl Exec {
    pub fn new(mode: Mode, dir: &Path) -> Exec {
        let home = dir.join("home");
        fs::create_dir_all(&home).unwrap();
        let work = dir.join("work");
        fs::create_dir_all(&work).unwrap();
        let mut cap = None;
        if mode == Mode::InProcess {
            std::env::set_var("HOME", &home);
            std::env::set_var("NO_COLOR", "1");
            std::env::remove_var("CLICOLOR_FORCE");
            std::env::set_current_dir(&work).unwrap();
            let o = memfd();
            let e = memfd();
            std::panic::set_hook(Box::new(|info| {
                eprintln!("{}", info);
            }));
            unsafe {
                libc::dup2(o.as_raw_fd(), 1);
                libc::dup2(e.as_raw_fd(), 2);
            }
            cap = Some((o, e));
        }
        Exec { mode, dir: dir.to_path_buf(), files: vec![], cap, runs: 0 }
    }
    pub fn work(&self) -> PathBuf {
        self.dir.join("work")
    }
    pub fn home(&self) -> PathBuf {
        self.dir.join("home")
    }
    pub fn reset(&mut self) {
        for f in self.files.drain(..).rev() {
            if f.is_dir() {
                let _ = fs::remove_dir(&f);
            } else {
                let _ = fs::remove_file(&f);
            }
        }
    }
    /// Everything below the working and home directories, with contents
    pub fn snapshot(&self) -> Vec<(PathBuf, Vec<u8>)> {
        fn walk(d: &Path, r: &mut Vec<(PathBuf, Vec<u8>)>) {
            for e in fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                let dir = e.file_type().map_or(false, |t| t.is_dir());
                r.push((p.clone(), if dir { vec![] } else { fs::read(&p).unwrap_or_default() }));
                if dir {
                    walk(&p, r);
                }
            }
        }
        let mut r = vec![];
        walk(&self.work(), &mut r);
        walk(&self.home(), &mut r);
        r.sort();
        r
    }
    pub fn finish(&mut self) {
        self.reset();
    }
    /// Writes a file; the path is relative to the working directory, or to the home directory after ~/
    pub fn write(&mut self, path: &str, content: &[u8]) {
        let full = match path.strip_prefix("~/") {
            Some(p) => self.home().join(p),
            None => self.work().join(path),
        };
        if let Some(parent) = full.parent() {
            let mut missing = vec![];
            let mut p = parent.to_path_buf();
            while !p.exists() {
                missing.push(p.clone());
                p = p.parent().unwrap().to_path_buf();
            }
            for p in missing.into_iter().rev() {
                fs::create_dir(&p).unwrap();
                self.files.push(p);
            }
        }
        fs::write(&full, content).unwrap();
        if !self.files.contains(&full) {
            self.files.push(full);
        }
    }
    pub fn remove(&mut self, path: &str) {
        let full = match path.strip_prefix("~/") {
            Some(p) => self.home().join(p),
            None => self.work().join(path),
        };
        let _ = fs::remove_file(&full);
    }
    pub fn symlink(&mut self, target: &str, path: &str) {
        let full = self.work().join(path);
        std::os::unix::fs::symlink(target, &full).unwrap();
        self.files.push(full);
    }
    pub fn run(&mut self, args: &[String]) -> Out {
        self.runs += 1;
        match self.mode {
            Mode::InProcess => self.run_in(args),
            Mode::Spawn => self.run_spawn(args),
        }
    }
    fn run_in(&mut self, args: &[String]) -> Out {
        let app = unsafe { RUN_APP }.expect("no program");
        let mut v = vec!["dinero".to_string()];
        v.extend(args.iter().cloned());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| app(v)));
        let _ = std::io::stdout().flush();
        let (o, e) = self.cap.as_mut().unwrap();
        let mut take = |f: &mut fs::File| {
            let mut b = vec![];
            f.seek(SeekFrom::Start(0)).unwrap();
            f.read_to_end(&mut b).unwrap();
            f.set_len(0).unwrap();
            f.seek(SeekFrom::Start(0)).unwrap();
            String::from_utf8_lossy(&b).to_string()
        };
        let out = take(o);
        let err = take(e);
        Out { ok: matches!(r, Ok(Ok(()))), out, err, killed: None }
    }
    fn command(&self, args: &[String]) -> Command {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("dinero");
        let mut c = Command::new(exe);
        c.args(args)
            .current_dir(self.work())
            .env_clear()
            .env("HOME", self.home())
            .env("NO_COLOR", "1")
            .env("PATH", "/usr/bin:/bin")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                limit(libc::RLIMIT_CPU, 20);
                limit(libc::RLIMIT_AS, 4 << 30);
                limit(libc::RLIMIT_CORE, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        c
    }
    pub fn run_spawn(&mut self, args: &[String]) -> Out {
        let o = self.command(args).output().expect("the program does not start");
        Out {
            ok: o.status.success(),
            out: String::from_utf8_lossy(&o.stdout).to_string(),
            err: String::from_utf8_lossy(&o.stderr).to_string(),
            killed: o.status.signal(),
        }
    }
    /// Started in other circumstances
    pub fn start(&mut self, args: &[String], w: &World) -> std::process::Child {
        self.runs += 1;
        let mut c = self.command(args);
        for (k, v) in &w.vars {
            c.env(k, v);
        }
        if let Some(d) = &w.dir {
            c.current_dir(if d.starts_with('/') { PathBuf::from(d) } else { self.work().join(d) });
        }
        if let Some(n) = &w.name {
            c.arg0(n);
        }
        if let Some(t) = w.time {
            let lib = std::env::current_exe().unwrap().parent().unwrap().join("libfault.so");
            assert!(lib.exists());
            c.env("LD_PRELOAD", lib).env("VF_TIME", t.to_string());
        }
        let mut kept = None;
        match &w.stdin {
            Stdin::Nothing => {}
            Stdin::Pipe(b) => unsafe {
                let mut p = [0; 2];
                assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
                let mut f = fs::File::from_raw_fd(p[1]);
                libc::fcntl(p[1], libc::F_SETFL, libc::O_NONBLOCK);
                f.write_all(b).expect("more than a pipe takes");
                kept = Some(f);
                c.stdin(Stdio::from_raw_fd(p[0]));
            },
            Stdin::Closed => unsafe {
                c.pre_exec(|| {
                    libc::close(0);
                    Ok(())
                });
            },
        }
        let umask = w.umask;
        unsafe {
            c.pre_exec(move || {
                if let Some(m) = umask {
                    libc::umask(m);
                }
                Ok(())
            });
        }
        // the other end is closed, so that it ends
        drop(kept);
        c.spawn().expect("the program does not start")
    }
    pub fn end(&mut self, c: std::process::Child) -> Out {
        let o = c.wait_with_output().expect("the program does not end");
        Out {
            ok: o.status.success(),
            out: String::from_utf8_lossy(&o.stdout).to_string(),
            err: String::from_utf8_lossy(&o.stderr).to_string(),
            killed: o.status.signal(),
        }
    }
    /// The standard output is a terminal with so many columns
    pub fn run_tty(&mut self, args: &[String], cols: u16, colours: bool) -> Out {
        self.runs += 1;
        let mut master = 0;
        let mut slave = 0;
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            libc::cfmakeraw(&mut t);
            t.c_cflag |= libc::CS8;
            let w = libc::winsize { ws_row: 24, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
            let r = libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), &t, &w);
            assert!(r == 0, "no terminal");
            libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(slave, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        let mut err = memfd();
        let mut c = self.command(args);
        if colours {
            c.env_remove("NO_COLOR");
        }
        c.stdout(unsafe { Stdio::from_raw_fd(slave) }).stderr(err.try_clone().unwrap());
        let mut child = c.spawn().expect("the program does not start");
        // closes the slave
        drop(c);
        let mut m = unsafe { fs::File::from_raw_fd(master) };
        let mut out = vec![];
        let mut b = [0u8; 8192];
        while let Ok(n) = m.read(&mut b) {
            if n == 0 {
                break;
            }
            out.extend_from_slice(&b[..n]);
        }
        let st = child.wait().unwrap();
        let mut e = vec![];
        err.seek(SeekFrom::Start(0)).unwrap();
        err.read_to_end(&mut e).unwrap();
        Out {
            ok: st.success(),
            out: String::from_utf8_lossy(&out).to_string(),
            err: String::from_utf8_lossy(&e).to_string(),
            killed: st.signal(),
        }
    }
    /// With these faults; also tells which of them happened
    pub fn run_faults(&mut self, args: &[String], f: &Faults) -> (Out, String) {
        self.runs += 1;
        let mut c = self.command(args);
        let lib = std::env::current_exe().unwrap().parent().unwrap().join("libfault.so");
        assert!(lib.exists());
        let log = self.dir.join("faults");
        let _ = fs::remove_file(&log);
        c.env("LD_PRELOAD", lib)
            .env("VF_DIR", fs::canonicalize(&self.dir).unwrap())
            .env("VF_LOG", &log)
            .env("VF_WRITE", &f.write)
            .env("VF_READ", &f.read)
            .env("VF_OPEN", &f.open)
            .env("VF_LIST", &f.dir);
        let o = c.output().expect("the program does not start");
        let happened = fs::read_to_string(&log).unwrap_or_default();
        let _ = fs::remove_file(&log);
        let out = Out {
            ok: o.status.success(),
            out: String::from_utf8_lossy(&o.stdout).to_string(),
            err: String::from_utf8_lossy(&o.stderr).to_string(),
            killed: o.status.signal(),
        };
        (out, happened)
    }
    /// The standard output cannot take everything
    pub fn run_full(&mut self, args: &[String], sink: Sink) -> (Out, Vec<u8>) {
        self.runs += 1;
        let mut c = self.command(args);
        let mut err = memfd();
        c.stderr(err.try_clone().unwrap());
        let mut out = memfd();
        match sink {
            Sink::Full => {
                c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
            }
            Sink::ClosedPipe => unsafe {
                let mut p = [0; 2];
                assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0);
                libc::close(p[0]);
                c.stdout(Stdio::from_raw_fd(p[1]));
            },
            Sink::Room(n) => unsafe {
                // the limit is for all files the program writes, and it writes nothing else
                c.stdout(out.try_clone().unwrap());
                c.pre_exec(move || {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    limit(libc::RLIMIT_FSIZE, n);
                    Ok(())
                });
                c.stderr(Stdio::null());
            },
        }
        let st = c.status().expect("the program does not start");
        drop(c);
        let mut o = vec![];
        out.seek(SeekFrom::Start(0)).unwrap();
        out.read_to_end(&mut o).unwrap();
        let mut e = vec![];
        err.seek(SeekFrom::Start(0)).unwrap();
        err.read_to_end(&mut e).unwrap();
        let out = Out {
            ok: st.success(),
            out: String::from_utf8_lossy(&o).to_string(),
            err: String::from_utf8_lossy(&e).to_string(),
            killed: st.signal(),
        };
        (out, o)
    }
}

/// The circumstances the program is started in
#[derive(Clone, Default, Debug)]
pub struct World {
    pub vars: Vec<(String, String)>,
    pub dir: Option<String>,
    pub name: Option<String>,
    /// since 1970
    pub time: Option<i64>,
    pub stdin: Stdin,
    pub umask: Option<u32>,
}
#[derive(Clone, Debug)]
pub enum Stdin {
    Nothing,
    Pipe(Vec<u8>),
    Closed,
}
impl Default for Stdin {
    fn default() -> Stdin {
        Stdin::Nothing
    }
}
/// What happens to the calls of the program, see fault.c
#[derive(Clone, Default, Debug)]
pub struct Faults {
    pub write: String,
    pub read: String,
    pub open: String,
    pub dir: String,
}

#[derive(Clone, Copy, Debug)]
pub enum Sink {
    /// Always fails
    Full,
    /// Nobody reads
    ClosedPipe,
    /// Takes so many bytes
    Room(u64),
}

fn limit(r: libc::__rlimit_resource_t, v: u64) {
    let x = libc::rlimit { rlim_cur: v, rlim_max: v };
    unsafe {
        libc::setrlimit(r, &x);
    }
}

impl crate::engine::Cx {
    pub fn file(&mut self, path: &str, content: &str) {
        self.mix(path.as_bytes());
        self.mix(content.as_bytes());
        self.log.push_str(&format!("--- file {}\n{}", path, content));
        if !content.ends_with('\n') {
            self.log.push_str("\n(no newline at the end)\n");
        }
        self.exec.write(path, content.as_bytes());
    }
    /// Runs the program. Being killed is always a failure.
    pub fn run(&mut self, args: &[&str]) -> Result<Out, String> {
        let v: Vec<String> = args.iter().map(|x| x.to_string()).collect();
        self.runv(&v)
    }
    /// Always the real binary
    pub fn run_real(&mut self, args: &[String]) -> Result<Out, String> {
        let m = self.exec.mode;
        self.exec.mode = crate::engine::Mode::Spawn;
        let r = self.runv(args);
        self.exec.mode = m;
        r
    }
    /// On a terminal
    pub fn run_tty(&mut self, args: &[String], cols: u16, colours: bool) -> Result<Out, String> {
        for a in args {
            self.mix(a.as_bytes());
        }
        self.log.push_str(&format!("--- dinero {:?} on a terminal with {} columns, colours: {}\n", args, cols, colours));
        let o = self.exec.run_tty(args, cols, colours);
        self.log.push_str(&format!("{}{}", o.out, if o.ok { "" } else { "(failed)\n" }));
        match o.killed {
            Some(s) => Err(format!("dinero {:?} was ended by signal {} (24 is out of CPU time)", args, s)),
            None => Ok(o),
        }
    }
    /// Several at the same time
    pub fn run_worlds(&mut self, what: &[(Vec<String>, World)]) -> Result<Vec<Out>, String> {
        let mut children = vec![];
        for (args, w) in what {
            for a in args {
                self.mix(a.as_bytes());
            }
            children.push(self.exec.start(args, w));
        }
        let mut r = vec![];
        let mut killed = None;
        for (c, (args, w)) in children.into_iter().zip(what) {
            let o = self.exec.end(c);
            self.log.push_str(&format!("--- dinero {:?} with {:?}\n", args, w));
            self.log.push_str(&format!("{}{}", o.out, if o.ok { "" } else { "(failed)\n" }));
            if let Some(s) = o.killed {
                killed = Some(format!("dinero {:?} was ended by signal {} (24 is out of CPU time)", args, s));
            }
            r.push(o);
        }
        match killed {
            Some(e) => Err(e),
            None => Ok(r),
        }
    }
    pub fn run_faults(&mut self, args: &[String], f: &Faults) -> Result<(Out, String), String> {
        for a in args {
            self.mix(a.as_bytes());
        }
        let (o, h) = self.exec.run_faults(args, f);
        self.log.push_str(&format!("--- dinero {:?} with {:?}, of which happened {:?}\n", args, f, h));
        self.log.push_str(&format!("{}{}", o.out, if o.ok { "" } else { "(failed)\n" }));
        match o.killed {
            Some(s) => Err(format!("dinero {:?} was ended by signal {} (24 is out of CPU time)", args, s)),
            None => Ok((o, h)),
        }
    }
    pub fn run_full(&mut self, args: &[String], sink: Sink) -> (Out, Vec<u8>) {
        self.log.push_str(&format!("--- dinero {:?} with standard output {:?}\n", args, sink));
        let (o, b) = self.exec.run_full(args, sink);
        self.log.push_str(&format!("{}{}", o.out, if o.ok { "" } else { "(failed)\n" }));
        (o, b)
    }
    pub fn runv(&mut self, args: &[String]) -> Result<Out, String> {
        for a in args {
            self.mix(a.as_bytes());
        }
        self.log.push_str(&format!("--- dinero {:?}\n", args));
        let o = self.exec.run(args);
        self.log.push_str(&format!("{}{}", o.out, if o.ok { "" } else { "(failed)\n" }));
        if !o.ok {
            let e: String = o.err.chars().take(600).collect();
            self.log.push_str(&format!("{}\n", e));
        }
        match o.killed {
            Some(s) => Err(format!("dinero {:?} was ended by signal {} (24 is out of CPU time)", args, s)),
            None => Ok(o),
        }
    }
}
