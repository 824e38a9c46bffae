//! Drives the compiled crate on scripted inputs and prints what its callbacks and results were.
//! One job per input line, one log line per job.  Used to replay refuted obligations on the real code.
extern crate http_box;

use std::fmt::Write as _;
use std::io::{ BufRead, Write };
use std::panic::{ catch_unwind, AssertUnwindSafe };
use std::sync::atomic::{ AtomicUsize, Ordering };

use http_box::fsm::Success;

static JOB: AtomicUsize = AtomicUsize::new(0);

fn unhex(s: &str) -> Box<[u8]> {
    let b = s.as_bytes();
    let v = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    (0..b.len() / 2).map(|i| v(b[2 * i]) << 4 | v(b[2 * i + 1])).collect::<Vec<u8>>().into_boxed_slice()
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b { let _ = write!(s, "{:02x}", x); }
    s
}

#[derive(Default)]
struct Log { out: String, n: usize, pause: Vec<usize>, all: bool, clen: Option<usize> }

impl Log {
    fn go(&mut self) -> bool {
        let p = self.all || self.pause.contains(&self.n);
        self.n += 1;
        !p
    }
    fn data(&mut self, ch: &str, d: &[u8]) -> bool {
        let _ = write!(self.out, " D:{}:{}", ch, hex(d));
        self.go()
    }
    fn ev(&mut self, ch: &str, a: &[u64]) -> bool {
        let _ = write!(self.out, " E:{}", ch);
        for x in a { let _ = write!(self.out, ":{}", x); }
        self.go()
    }
}

macro_rules! d { ($($f:ident $n:expr),*) => { $(fn $f(&mut self, b: &[u8]) -> bool { self.data($n, b) })* } }
macro_rules! e { ($($f:ident $n:expr),*) => { $(fn $f(&mut self) -> bool { self.ev($n, &[]) })* } }

impl http_box::http1::HttpHandler for Log {
    fn content_length(&mut self) -> Option<usize> { let _ = write!(self.out, " Q:content_length"); self.clen }
    e!{ on_body_finished "body_finished", on_chunk_begin "chunk_begin", on_chunk_extension_finished "chunk_extension_finished",
        on_chunk_extensions_finished "chunk_extensions_finished", on_headers_finished "headers_finished",
        on_initial_finished "initial_finished", on_multipart_begin "multipart_begin", on_url_encoded_begin "url_encoded_begin" }
    d!{ on_chunk_data "chunk_data", on_chunk_extension_name "chunk_extension_name", on_chunk_extension_value "chunk_extension_value",
        on_header_name "header_name", on_header_value "header_value", on_method "method", on_multipart_data "multipart_data",
        on_status "status", on_url "url", on_url_encoded_name "url_encoded_name", on_url_encoded_value "url_encoded_value" }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.ev("chunk_length", &[n as u64]) }
    fn on_status_code(&mut self, n: u16) -> bool { self.ev("status_code", &[n as u64]) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.ev("version", &[a as u64, b as u64]) }
}

macro_rules! df { ($($f:ident $n:expr),*) => { $(fn $f(&mut self, b: &[u8], fin: bool) -> bool {
    let _ = write!(self.out, " F:{}:{}:{}", $n, hex(b), fin as u8); self.go() })* } }

impl http_box::http2::HttpHandler for Log {
    df!{ on_data "data", on_go_away_debug_data "go_away_debug_data", on_headers_fragment "headers_fragment", on_ping "ping", on_unsupported "unsupported" }
    fn on_frame_format(&mut self, l: u32, t: u8, f: u8, s: u32) -> bool { self.ev("frame_format", &[l as u64, t as u64, f as u64, s as u64]) }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.ev("go_away", &[s as u64, e as u64]) }
    fn on_headers(&mut self, x: bool, s: u32, w: u8) -> bool { self.ev("headers", &[x as u64, s as u64, w as u64]) }
    fn on_priority(&mut self, x: bool, s: u32, w: u8) -> bool { self.ev("priority", &[x as u64, s as u64, w as u64]) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.ev("push_promise", &[s as u64]) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.ev("rst_stream", &[e as u64]) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.ev("settings", &[i as u64, v as u64]) }
    fn on_window_update(&mut self, n: u32) -> bool { self.ev("window_update", &[n as u64]) }
}

fn set_pause(h: &mut Log, a: &str) {
    h.n = 0;
    h.all = a == "all";
    h.pause = if a == "all" || a == "none" { vec![] } else { a.split(',').map(|x| x.parse().unwrap()).collect() };
}

/// calls resume on the piece (again after each pause when `go`), returns false when parsing is over
macro_rules! drive { ($p:expr, $h:expr, $piece:expr, $go:expr) => {{
    let piece: &[u8] = $piece;
    let (mut at, mut calls) = (0usize, 0usize);
    loop {
        // every call gets an allocation of exactly its own size
        let part: Box<[u8]> = piece[at..].to_vec().into_boxed_slice();
        let r = $p.resume(&mut $h, &part);
        let (kind, n) = match &r {
            Ok(Success::Callback(n)) => ("Callback".to_string(), *n),
            Ok(Success::Eos(n)) => ("Eos".to_string(), *n),
            Ok(Success::Finished(n)) => ("Finished".to_string(), *n),
            Err(e) => (format!("{:?}", e).replace(' ', ""), 0),
        };
        let st = format!("{:?}", $p.state()).replace(' ', "");
        let _ = write!($h.out, " R|{}|{}|{}|{}|{}", kind, n, $p.byte_count(), st, part.len());
        calls += 1;
        if !$go || kind != "Callback" { break; }
        at += n;
        if at > piece.len() { let _ = write!($h.out, " X:overrun"); break; }
        if calls > 4 * piece.len() + 64 { let _ = write!($h.out, " X:loop"); break; }
    }
}} }

fn h1(toks: &[&str], h: &mut Log) {
    let bs: Vec<Box<[u8]>> = toks.iter().filter(|t| t.starts_with("b:")).map(|t| unhex(&t[2..])).collect();
    let mut bi = 0;
    let mut p = http_box::http1::Parser::<Log>::new();
    for t in toks {
        match *t {
            "new" => p = http_box::http1::Parser::new(),
            "ih" => p.init_head(), "ic" => p.init_chunked(), "im" => p.init_multipart(), "iu" => p.init_url_encoded(),
            "reset" => p.reset(),
            "|" => { let _ = write!(h.out, " |"); },
            "bc" => { let _ = write!(h.out, " B|{}|{:?}", p.byte_count(), p.state()); },
            _ => match &t[..2] {
                "b:" => { p.set_boundary(&bs[bi]); bi += 1; },
                "l:" => p.set_length(t[2..].parse().unwrap()),
                "c:" => h.clen = t[2..].parse().ok(),
                "p:" => set_pause(h, &t[2..]),
                "s:" => drive!(p, *h, &unhex(&t[2..]), true),
                "t:" => drive!(p, *h, &unhex(&t[2..]), false),
                // only the first bytes of a larger buffer are handed over
                "w:" => {
                    let mut f = t[2..].split(':');
                    let b = unhex(f.next().unwrap());
                    let n: usize = f.next().unwrap().parse().unwrap();
                    let r = p.resume(h, &b[..n]);
                    let _ = write!(h.out, " W|{:?}", r);
                },
                _ => panic!("bad token {}", t)
            }
        }
    }
}

fn h2(toks: &[&str], h: &mut Log) {
    let mut p = http_box::http2::Parser::<Log>::new();
    for t in toks {
        match *t {
            "new" => p = http_box::http2::Parser::new(),
            "reset" => p.reset(),
            "|" => { let _ = write!(h.out, " |"); },
            "bc" => { let _ = write!(h.out, " B|{}|{:?}", p.byte_count(), p.state()); },
            _ => match &t[..2] {
                "p:" => set_pause(h, &t[2..]),
                "s:" => drive!(p, *h, &unhex(&t[2..]), true),
                "t:" => drive!(p, *h, &unhex(&t[2..]), false),
                _ => panic!("bad token {}", t)
            }
        }
    }
}

use http_box::util::{ DecodeError, FieldError, QueryError };

fn show(s: &String) -> String {
    format!("{}{}", if std::str::from_utf8(s.as_bytes()).is_ok() { "" } else { "!" }, hex(s.as_bytes()))
}

fn item(h: &mut Log, x: Option<(String, Option<String>)>) -> bool {
    match x {
        None => { let _ = write!(h.out, " none"); false },
        Some((n, v)) => { let _ = write!(h.out, " {}={}", show(&n), v.map(|v| show(&v)).unwrap_or("-".to_string())); true }
    }
}

fn util(toks: &[&str], h: &mut Log) {
    match toks[0] {
        "dec" => match http_box::util::decode(&unhex(toks.get(1).unwrap_or(&""))) {
            Ok(s) => { let _ = write!(h.out, " ok:{}", show(&s)); },
            Err(DecodeError::Byte(b)) => { let _ = write!(h.out, " err:Byte:{}", b); },
            Err(DecodeError::HexSequence(b)) => { let _ = write!(h.out, " err:HexSequence:{}", b); }
        },
        "qry" => {
            let b = unhex(toks.get(1).unwrap_or(&""));
            let errs = std::cell::RefCell::new(String::new());
            {
                let mut it = http_box::util::QueryIterator::new(&b);
                it.on_error(|e| { let _ = match e { QueryError::Name(b) => write!(errs.borrow_mut(), " err:Name:{}", b), QueryError::Value(b) => write!(errs.borrow_mut(), " err:Value:{}", b) }; });
                let mut extra = 0;
                for _ in 0..b.len() + 6 {
                    let x = it.next();
                    h.out.push_str(&errs.borrow()); errs.borrow_mut().clear();
                    if !item(h, x) { extra += 1; if extra > 2 { break; } }
                }
            }
        },
        "fld" => {
            let b = unhex(toks.get(3).unwrap_or(&""));
            let errs = std::cell::RefCell::new(String::new());
            {
                let mut it = http_box::util::FieldIterator::new(&b, toks[1].parse().unwrap(), toks[2] == "1");
                it.on_error(|e| { let _ = match e { FieldError::Name(b) => write!(errs.borrow_mut(), " err:Name:{}", b), FieldError::Value(b) => write!(errs.borrow_mut(), " err:Value:{}", b) }; });
                let mut extra = 0;
                for _ in 0..b.len() + 6 {
                    let x = it.next();
                    h.out.push_str(&errs.borrow()); errs.borrow_mut().clear();
                    if !item(h, x) { extra += 1; if extra > 2 { break; } }
                }
            }
        },
        "byte" => {
            for b in 0..=255u8 {
                let _ = write!(h.out, " {}{}{}", http_box::byte::is_header_field(b) as u8,
                               http_box::byte::is_quoted_header_field(b) as u8, http_box::byte::is_token(b) as u8);
            }
        },
        "codes" => codes(h),
        "defaults" => defaults(h),
        _ => panic!("bad job")
    }
}

macro_rules! preds { ($h:expr, $x:expr, $($p:ident),*) => { $( if $x.$p() { let _ = write!($h.out, " {}", stringify!($p)); } )* } }

/// wire codes through the public types
fn codes(h: &mut Log) {
    use http_box::http2::{ ErrorCode, Flags, FrameFormat, FrameType, Setting };
    for b in 0..=255u8 {
        let t = FrameType::from_u8(b);
        let _ = write!(h.out, " T {} {}", b, t.as_byte());
        preds!(h, t, is_continuation, is_data, is_go_away, is_headers, is_push_ping, is_priority, is_push_promise, is_rst_stream, is_settings, is_unsupported, is_window_update);
        let e = ErrorCode::from_u8(b);
        let _ = write!(h.out, " C {} {}", b, e.as_byte());
        preds!(h, e, is_cancel, is_compression, is_connect, is_enhance_your_calm, is_flow_control, is_frame_size, is_http_1_1_required, is_inadequate_security, is_internal,
               is_no_error, is_protocol, is_refused_stream, is_settings_timeout, is_stream_closed);
        let f = Flags::from_u8(b);
        let _ = write!(h.out, " G {} {}", b, f.as_byte());
        preds!(h, f, is_ack, is_empty, is_end_headers, is_end_stream, is_padded, is_priority);
    }
    let mut r: u32 = 12345;
    for i in 0..2000u32 {
        r = r.wrapping_mul(1664525).wrapping_add(1013904223);
        let v = if i % 3 == 0 { 0xFFFFFFFF } else if i % 3 == 1 { 1 << (i % 32) } else { r };
        let (l, t, g, s) = (v & 0xFFFFFF, (r >> 8) as u8, (r >> 16) as u8, v ^ (r >> 3));
        let x = FrameFormat::new(l, t, g, s);
        let ok = x.payload_length() == l && x.frame_type() == FrameType::from_u8(t) && x.flags().as_byte() == g && x.stream_id() == s;
        if !ok { let _ = write!(h.out, " FORMAT {} {} {} {}", l, t, g, s); }
        let id = if i < 300 { i as u16 } else { r as u16 };
        let x = Setting::new(id, v);
        if id < 300 || x.value() != v || !x.is_unsupported() {
            let _ = write!(h.out, " S {} {}", id, (x.value() == v) as u8);
            preds!(h, x, is_enable_push, is_header_table_size, is_initial_window_size, is_max_concurrent_streams, is_max_frame_size, is_max_header_list_size, is_unsupported);
        }
    }
}

struct Nothing;
impl http_box::http1::HttpHandler for Nothing {}
impl http_box::http2::HttpHandler for Nothing {}

/// what callbacks answer when they are not overridden
fn defaults(h: &mut Log) {
    let mut n = Nothing;
    {
        use http_box::http1::HttpHandler as H;
        macro_rules! q { ($($f:ident($($a:expr),*)),*) => { $( if !H::$f(&mut n, $($a),*) { let _ = write!(h.out, " http1::{}", stringify!($f)); } )* } }
        if H::content_length(&mut n).is_some() { h.out.push_str(" http1::content_length"); }
        for d in &[&b""[..], b"a", b"\xff\x00", b"abcdefgh"] {
            q!(on_body_finished(), on_chunk_begin(), on_chunk_data(d), on_chunk_extension_finished(), on_chunk_extension_name(d), on_chunk_extension_value(d),
               on_chunk_extensions_finished(), on_chunk_length(d.len()), on_header_name(d), on_header_value(d), on_headers_finished(), on_initial_finished(), on_method(d),
               on_multipart_begin(), on_multipart_data(d), on_status(d), on_status_code(d.len() as u16), on_url(d), on_url_encoded_begin(), on_url_encoded_name(d),
               on_url_encoded_value(d), on_version(1, d.len() as u16));
        }
    }
    {
        use http_box::http2::HttpHandler as H;
        macro_rules! q { ($($f:ident($($a:expr),*)),*) => { $( if !H::$f(&mut n, $($a),*) { let _ = write!(h.out, " http2::{}", stringify!($f)); } )* } }
        for d in &[&b""[..], b"a", b"\xff\x00", b"abcdefgh"] {
            for f in &[true, false] {
                q!(on_data(d, *f), on_go_away_debug_data(d, *f), on_headers_fragment(d, *f), on_ping(d, *f), on_unsupported(d, *f));
            }
            let k = d.len() as u32;
            q!(on_frame_format(k, k as u8, k as u8, k), on_go_away(k, k), on_headers(k > 0, k, k as u8), on_priority(k > 0, k, k as u8), on_push_promise(k), on_rst_stream(k),
               on_settings(k as u16, k), on_window_update(k));
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = (usize::max_value(), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let j = JOB.load(Ordering::SeqCst);
            if j % 2 == 1 && last.0 == j {
                last.1 += 1;
                if last.1 > 8 { println!("{} HANG", (j - 1) / 2); std::io::stdout().flush().unwrap(); std::process::exit(3); }
            } else { last = (j, 0); }
        }
    });
    let stdin = std::io::stdin();
    for (i, line) in stdin.lock().lines().enumerate() {
        let line = line.unwrap();
        let toks: Vec<&str> = line.split_whitespace().collect();
        JOB.store(2 * i + 1, Ordering::SeqCst);
        let mut h = Log::default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            match toks[0] {
                "h1" => h1(&toks[1..], &mut h),
                "h2" => h2(&toks[1..], &mut h),
                _ => util(&toks, &mut h)
            }
        }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let _ = write!(h.out, " PANIC:{}", m.replace(' ', "_").replace('\n', "_"));
        }
        JOB.store(2 * i + 2, Ordering::SeqCst);
        let out = std::io::stdout();
        let mut out = out.lock();
        writeln!(out, "{}{}", i, h.out).unwrap();
        out.flush().unwrap();
    }
}
