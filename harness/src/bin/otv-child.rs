//! A process that does what it is told over a socket, one step at a time.
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut s = UnixStream::connect(&args[1]).expect("connect");
    unsafe {
        // small pipes, so that they fill up
        libc::fcntl(0, libc::F_SETPIPE_SZ, 4096);
        libc::fcntl(1, libc::F_SETPIPE_SZ, 4096);
        libc::fcntl(2, libc::F_SETPIPE_SZ, 4096);
    }
    let mut hello = std::process::id().to_string();
    hello.push('\u{1}');
    hello.push_str(&std::env::current_dir().map(|p| p.to_string_lossy().to_string()).unwrap_or_default());
    for a in &args[2..] {
        hello.push('\u{1}');
        hello.push_str(a);
    }
    send(&mut s, hello.as_bytes());
    // positions in the patterns
    let mut at = [0usize; 2];
    loop {
        let mut c = [0u8; 5];
        if s.read_exact(&mut c).is_err() {
            std::process::exit(99);
        }
        let n = u32::from_be_bytes([c[1], c[2], c[3], c[4]]) as usize;
        match c[0] {
            b'o' | b'e' => {
                let i = (c[0] == b'e') as usize;
                let v: Vec<u8> = (at[i]..at[i] + n).map(|k| pattern(i, k)).collect();
                at[i] += n;
                let mut b = &v[..];
                while !b.is_empty() {
                    let r = unsafe { libc::write(1 + i as i32, b.as_ptr() as *const _, b.len()) };
                    if r <= 0 {
                        break;
                    }
                    b = &b[r as usize..];
                }
                send(&mut s, b"k");
            }
            b'i' => {
                let mut v = vec![0; n];
                let mut got = 0;
                while got < n {
                    let r = unsafe { libc::read(0, v[got..].as_mut_ptr() as *mut _, n - got) };
                    if r <= 0 {
                        break;
                    }
                    got += r as usize;
                }
                v.truncate(got);
                send(&mut s, &v);
            }
            // how much is there to read?
            b'?' => {
                let mut k: libc::c_int = 0;
                unsafe { libc::ioctl(0, libc::FIONREAD, &mut k) };
                send(&mut s, k.to_string().as_bytes());
            }
            b'c' => {
                unsafe { libc::close(n as i32) };
                send(&mut s, b"k");
            }
            b'x' => unsafe { libc::_exit(n as i32) },
            b's' => unsafe {
                libc::kill(libc::getpid(), n as i32);
            },
            _ => std::process::exit(98),
        }
    }
}
fn send(s: &mut UnixStream, b: &[u8]) {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    let _ = s.write_all(&v);
}
fn pattern(i: usize, k: usize) -> u8 {
    // does not repeat in step with anything
    ((k * k + 7 * k + i * 131) % 253) as u8
}
