//! Fork servers (one per program) and the channels to the simulated processes.
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, IntoRawFd, RawFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

pub struct Zygote {
    ctl: UnixStream,
    _child: Child,
}

#[derive(Debug)]
pub struct Req {
    pub nr: u32,
    pub a: [u64; 6],
    pub b: [Option<Vec<u8>>; 2],
}

pub struct Chan {
    sock: UnixStream,
    buf: Vec<u8>,
}

pub enum Recv {
    Req(Req),
    Gone,
    Hang,
}

const MAX_ARGS: usize = 40;

impl Zygote {
    pub fn spawn(exe: &str, shim: &str, kdf_shift: u32) -> Result<Zygote, String> {
        let (a, b) = UnixStream::pair().map_err(|e| e.to_string())?;
        let fd: RawFd = b.into_raw_fd();
        let mut cmd = Command::new(exe);
        cmd.env_clear()
            .env("HOME", "/home/u")
            .env("PATH", "/bin")
            .env("TERM", "xterm")
            .env("LD_PRELOAD", shim)
            .env("PFPSIM_CTL", "899")
            .env("PFPSIM_KDF_SHIFT", kdf_shift.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        for _ in 0..MAX_ARGS {
            cmd.arg("-");
        }
        unsafe {
            cmd.pre_exec(move || {
                if libc::dup2(fd, 899) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = cmd.spawn().map_err(|e| format!("cannot start {}: {}", exe, e))?;
        unsafe { libc::close(fd) };
        Ok(Zygote { ctl: a, _child: child })
    }

    pub fn start(&mut self, args: &[Vec<u8>], needles: &[Vec<u8>]) -> Result<Chan, String> {
        assert!(args.len() <= MAX_ARGS);
        let (a, b) = UnixStream::pair().map_err(|e| e.to_string())?;
        let mut msg = Vec::new();
        msg.extend_from_slice(&(args.len() as u32).to_le_bytes());
        msg.extend_from_slice(&(needles.len() as u32).to_le_bytes());
        msg.extend_from_slice(&0u32.to_le_bytes());
        for s in args {
            msg.extend_from_slice(&(s.len() as u32).to_le_bytes());
            msg.extend_from_slice(s);
            msg.push(0);
            while msg.len() % 4 != 0 {
                msg.push(0);
            }
        }
        for s in needles {
            msg.extend_from_slice(&(s.len() as u32).to_le_bytes());
            msg.extend_from_slice(s);
            while msg.len() % 4 != 0 {
                msg.push(0);
            }
        }
        // length with the descriptor attached, then the body
        let total = (msg.len() as u32).to_le_bytes();
        unsafe {
            let mut iov = libc::iovec { iov_base: total.as_ptr() as *mut _, iov_len: 4 };
            let mut cbuf = [0u64; 4];
            let mut mh: libc::msghdr = std::mem::zeroed();
            mh.msg_iov = &mut iov;
            mh.msg_iovlen = 1;
            mh.msg_control = cbuf.as_mut_ptr() as *mut _;
            mh.msg_controllen = libc::CMSG_SPACE(4) as _;
            let c = libc::CMSG_FIRSTHDR(&mh);
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            (*c).cmsg_len = libc::CMSG_LEN(4) as _;
            *(libc::CMSG_DATA(c) as *mut RawFd) = b.as_raw_fd();
            if libc::sendmsg(self.ctl.as_raw_fd(), &mh, libc::MSG_NOSIGNAL) != 4 {
                return Err("fork server is gone".into());
            }
        }
        self.ctl.write_all(&msg).map_err(|e| e.to_string())?;
        drop(b);
        Ok(Chan { sock: a, buf: Vec::new() })
    }
}

impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self._child.kill();
        let _ = self._child.wait();
    }
}

impl Chan {
    /// Waits for the next system call of the process.
    pub fn recv(&mut self, timeout_ms: i32) -> Recv {
        loop {
            if self.buf.len() >= 4 {
                let total = u32::from_le_bytes(self.buf[0..4].try_into().unwrap()) as usize;
                if self.buf.len() >= 4 + total {
                    let m: Vec<u8> = self.buf.drain(..4 + total).skip(4).collect();
                    let u32at = |o: usize| u32::from_le_bytes(m[o..o + 4].try_into().unwrap());
                    let nr = u32at(0);
                    let mut a = [0u64; 6];
                    for (i, v) in a.iter_mut().enumerate() {
                        *v = u64::from_le_bytes(m[4 + 8 * i..12 + 8 * i].try_into().unwrap());
                    }
                    let (n0, n1) = (u32at(52), u32at(56));
                    let mut pos = 60;
                    let mut take = |n: u32| {
                        if n == u32::MAX {
                            None
                        } else {
                            let v = m[pos..pos + n as usize].to_vec();
                            pos += n as usize;
                            Some(v)
                        }
                    };
                    let b0 = take(n0);
                    let b1 = take(n1);
                    return Recv::Req(Req { nr, a, b: [b0, b1] });
                }
            }
            unsafe {
                let mut p = libc::pollfd { fd: self.sock.as_raw_fd(), events: libc::POLLIN, revents: 0 };
                let r = libc::poll(&mut p, 1, timeout_ms);
                if r == 0 {
                    return Recv::Hang;
                }
                if r < 0 {
                    continue;
                }
            }
            let mut tmp = [0u8; 65536];
            match self.sock.read(&mut tmp) {
                Ok(0) | Err(_) => return Recv::Gone,
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
            }
        }
    }
    pub fn reply(&mut self, ret: i64, data: &[u8], scan: bool) {
        let mut m = Vec::with_capacity(16 + data.len());
        m.extend_from_slice(&ret.to_le_bytes());
        m.extend_from_slice(&(data.len() as u32).to_le_bytes());
        m.extend_from_slice(&(scan as u32).to_le_bytes());
        m.extend_from_slice(data);
        let _ = self.sock.write_all(&m);
    }
}

pub fn pin_cpu(i: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(i % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

/// Lets a process and everything below it run on every processor again.
pub fn unpin(pid: i32) {
    let mut parents = std::collections::BTreeMap::new();
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Ok(p) = e.file_name().to_string_lossy().parse::<i32>() else { continue };
        let Ok(st) = std::fs::read_to_string(format!("/proc/{}/stat", p)) else { continue };
        let after = st.rsplit(')').next().unwrap_or("");
        let parent = after.split_whitespace().nth(1).and_then(|f| f.parse::<i32>().ok());
        parents.insert(p, parent.unwrap_or(0));
    }
    for &p in parents.keys() {
        let mut q = p;
        let mut depth = 0;
        while q != pid && q > 1 && depth < 8 {
            q = parents.get(&q).copied().unwrap_or(0);
            depth += 1;
        }
        if q == pid {
            unsafe {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                for i in 0..libc::sysconf(libc::_SC_NPROCESSORS_ONLN).clamp(1, 1024) as usize {
                    libc::CPU_SET(i, &mut set);
                }
                libc::sched_setaffinity(p, std::mem::size_of_val(&set), &set);
            }
        }
    }
}
