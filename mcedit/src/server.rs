//! Stands in for the running game: answers the editor's HTTP requests on the loopback interface.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub enum Answer {
    /// status code and body
    Body(u16, String),
    /// hang up without an answer
    HangUp,
}

static ANSWER: Mutex<Answer> = Mutex::new(Answer::HangUp);
/// What the last request asked for.
static ASKED: Mutex<Vec<String>> = Mutex::new(vec![]);
/// Requests carry no mark of who asked: one at a time.
static TURN: Mutex<()> = Mutex::new(());

fn handle(mut s: TcpStream) -> std::io::Result<()> {
    s.set_read_timeout(Some(Duration::from_secs(20)))?;
    s.set_nodelay(true)?;
    let mut data = vec![];
    let mut buf = [0u8; 4096];
    let end = loop {
        if let Some(p) = data.windows(4).position(|w| w == b"\r\n\r\n") {
            break p + 4;
        }
        let n = s.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        data.extend(&buf[..n]);
    };
    let head = String::from_utf8_lossy(&data[..end]).to_lowercase();
    let len = head.lines().find_map(|l| l.strip_prefix("content-length:").map(|v| v.trim().parse::<usize>().unwrap_or(0)));
    let body: Vec<u8> = match len {
        Some(len) => {
            while data.len() < end + len {
                let n = s.read(&mut buf)?;
                if n == 0 {
                    break;
                }
                data.extend(&buf[..n]);
            }
            data[end..].to_vec()
        }
        None if head.contains("transfer-encoding: chunked") => {
            while !data.ends_with(b"0\r\n\r\n") {
                let n = s.read(&mut buf)?;
                if n == 0 {
                    break;
                }
                data.extend(&buf[..n]);
            }
            let mut out = vec![];
            let mut at = end;
            while let Some(p) = data[at..].windows(2).position(|w| w == b"\r\n") {
                let n = usize::from_str_radix(String::from_utf8_lossy(&data[at..at + p]).trim(), 16).unwrap_or(0);
                if n == 0 || at + p + 2 + n > data.len() {
                    break;
                }
                out.extend(&data[at + p + 2..at + p + 2 + n]);
                at += p + 2 + n + 2;
            }
            out
        }
        None => vec![],
    };
    ASKED.lock().unwrap().push(String::from_utf8_lossy(&body).to_string());
    let a = ANSWER.lock().unwrap().clone();
    if let Answer::Body(status, text) = a {
        write!(s, "HTTP/1.1 {status} Answer\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n", text.len())?;
        s.write_all(text.as_bytes())?;
        s.flush()?;
    }
    Ok(())
}

pub fn start() {
    let t = Instant::now();
    // another run on this machine may be using the editor's port
    let l = loop {
        match TcpListener::bind("127.0.0.1:15702") {
            Ok(l) => break l,
            Err(e) if t.elapsed() > Duration::from_secs(300) => {
                eprintln!("cannot listen: {e}");
                std::process::exit(2);
            }
            Err(_) => std::thread::sleep(Duration::from_millis(200)),
        }
    };
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let _ = handle(s);
        }
    });
}

/// Runs `f` while the game gives `a` as its answer; returns what was asked meanwhile.
pub fn answering<T>(a: Answer, f: impl FnOnce() -> T) -> (T, Vec<String>) {
    let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
    *ANSWER.lock().unwrap() = a;
    ASKED.lock().unwrap().clear();
    let r = f();
    let asked = std::mem::take(&mut *ASKED.lock().unwrap());
    *ANSWER.lock().unwrap() = Answer::HangUp;
    (r, asked)
}
