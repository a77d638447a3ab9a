//! Running the code under test: every call is guarded against panics and watched for hangs,
//! and the reader underneath can be told how to deliver the bytes and where to fail.
use crate::json::*;
use crate::model::to_j;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::*;
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, BufReader, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub static BEAT: AtomicU64 = AtomicU64::new(0);
static CAREFUL: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static NOTE: Mutex<String> = Mutex::new(String::new());

/// In careful mode the case about to run is written down first, so that the driver can
/// report it if the process does not survive it.
pub fn careful(path: &str) {
    CAREFUL.store(true, Ordering::SeqCst);
    *NOTE.lock().unwrap() = path.to_string();
}
pub fn is_careful() -> bool {
    CAREFUL.load(Ordering::Relaxed)
}
pub fn about_to(case: impl FnOnce() -> J) {
    if CAREFUL.load(Ordering::Relaxed) {
        let p = NOTE.lock().unwrap().clone();
        let t = case().text();
        *CURRENT.lock().unwrap() = t.clone();
        std::fs::write(p, t + "\n").ok();
    }
    BEAT.fetch_add(1, Ordering::Relaxed);
}

pub fn start_watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                same += 1;
            } else {
                same = 0;
                last = now;
            }
            if same >= 2 * limit_s {
                eprintln!("HANG after {} cases", now);
                std::process::exit(70);
            }
        }
    });
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

/// error texts serve to tell cases apart, they are no part of the outcome
#[derive(Clone, Debug)]
pub struct Msg(pub String);
impl PartialEq for Msg {
    fn eq(&self, _: &Msg) -> bool {
        true
    }
}
impl Msg {
    pub fn sig(&self) -> u64 {
        let t: Vec<u8> = self.0.bytes().filter(|c| c.is_ascii_alphabetic()).collect();
        crate::pool::hash_bytes(&t)
    }
}

/// outcome of a decode call
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(MqttPacket),
    Err(Msg),
    Panic,
}
impl Out {
    pub fn of(r: Result<Res<MqttPacket>, String>) -> Out {
        match r {
            Ok(Ok(p)) => Out::Ok(p),
            Ok(Err(m)) => Out::Err(Msg(m)),
            Err(_) => Out::Panic,
        }
    }
    pub fn j(&self) -> J {
        match self {
            Out::Ok(p) => obj(vec![("k", s("ok")), ("p", to_j(p))]),
            Out::Err(_) => obj(vec![("k", s("err"))]),
            Out::Panic => obj(vec![("k", s("panic"))]),
        }
    }
    pub fn k(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic => "panic",
        }
    }
}

/// outcome of an encode call
#[derive(Clone, Debug, PartialEq)]
pub enum Enc {
    Ok(Vec<u8>),
    Err(Msg),
    Panic,
}
impl Enc {
    pub fn j(&self) -> J {
        match self {
            Enc::Ok(x) => obj(vec![("k", s("ok")), ("b", b(x))]),
            Enc::Err(_) => obj(vec![("k", s("err"))]),
            Enc::Panic => obj(vec![("k", s("panic"))]),
        }
    }
    pub fn k(&self) -> &'static str {
        match self {
            Enc::Ok(_) => "ok",
            Enc::Err(_) => "err",
            Enc::Panic => "panic",
        }
    }
}
pub fn encode(p: &MqttPacket, v: u8) -> Enc {
    match guarded(|| p.clone().encode(v)) {
        Ok(Ok(x)) => Enc::Ok(x),
        Ok(Err(m)) => Enc::Err(Msg(m)),
        Err(_) => Enc::Panic,
    }
}

#[derive(Clone, Debug)]
pub enum End {
    Eof,
    /// from here on only errors
    Error(io::ErrorKind),
    /// one error, then the rest of the data
    ErrorOnce(io::ErrorKind),
}

/// how a stream is delivered: sizes of the pieces in turn (0: an interrupted read), and
/// what happens at the cut
#[derive(Clone, Debug)]
pub struct Plan {
    pub sizes: Vec<usize>,
    pub cut: usize,
    pub end: End,
}
impl Plan {
    pub fn whole() -> Plan {
        Plan { sizes: vec![usize::MAX], cut: usize::MAX, end: End::Eof }
    }
    pub fn sizes(v: Vec<usize>) -> Plan {
        Plan { sizes: v, cut: usize::MAX, end: End::Eof }
    }
    pub fn cut(cut: usize, end: End) -> Plan {
        Plan { sizes: vec![usize::MAX], cut, end }
    }
}

pub struct Src {
    data: Rc<Vec<u8>>,
    pos: usize,
    turn: usize,
    plan: Plan,
    failed: bool,
    pub delivered: Rc<Cell<usize>>,
    pub reads: Rc<Cell<usize>>,
    /// how much had been delivered each time the reader was asked
    pub asks: Option<Rc<RefCell<Vec<usize>>>>,
    /// what else happens while the reader is asked
    pub on_read: Option<Rc<dyn Fn()>>,
}
impl Src {
    pub fn new(data: Rc<Vec<u8>>, plan: Plan) -> Src {
        Src {
            data,
            pos: 0,
            turn: 0,
            plan,
            failed: false,
            delivered: Rc::new(Cell::new(0)),
            reads: Rc::new(Cell::new(0)),
            asks: None,
            on_read: None,
        }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(f) = &self.on_read {
            f()
        }
        if let Some(a) = &self.asks {
            a.borrow_mut().push(self.pos)
        }
        let size = self.plan.sizes[self.turn % self.plan.sizes.len()];
        self.turn += 1;
        if size == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if self.pos <= self.plan.cut && self.plan.cut < end {
            if self.pos == self.plan.cut {
                match self.plan.end.clone() {
                    End::Eof => return Ok(0),
                    End::Error(k) => return Err(k.into()),
                    End::ErrorOnce(k) => {
                        if !self.failed {
                            self.failed = true;
                            return Err(k.into());
                        }
                    }
                }
            } else {
                end = self.plan.cut
            }
        }
        let n = size.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.delivered.set(self.delivered.get() + n);
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctor {
    Stream,
    Buf(usize),
    Reader(usize),
    /// a buffered reader whose user has looked at the stream before
    Looked(usize),
}
pub fn decoder(src: Src, c: Ctor) -> PacketDecoder<Src> {
    match c {
        Ctor::Stream => PacketDecoder::from_stream(src),
        Ctor::Buf(n) => PacketDecoder::from_bufreader(BufReader::with_capacity(n, src)),
        Ctor::Looked(n) => {
            let mut r = BufReader::with_capacity(n, src);
            let _ = r.fill_buf();
            PacketDecoder::from_bufreader(r)
        }
        Ctor::Reader(n) => PacketDecoder::new(ByteReader::new(BufReader::with_capacity(n, src))),
    }
}

pub struct Call {
    pub out: Out,
    /// bytes consumed from the stream so far
    pub pos: usize,
    pub more: &'static str,
}

/// Decodes data call by call, observing the position from outside: with a buffer of one
/// byte at most one byte can have been fetched ahead, and asking for more tells which.
pub fn run_exact(data: &[u8], vs: &[u8], max_calls: usize) -> Vec<Call> {
    let src = Src::new(Rc::new(data.to_vec()), Plan::whole());
    let (delivered, reads) = (src.delivered.clone(), src.reads.clone());
    let mut d = decoder(src, Ctor::Buf(1));
    let mut o = vec![];
    for k in 0..max_calls {
        let v = vs[k % vs.len()];
        BEAT.fetch_add(1, Ordering::Relaxed);
        let out = Out::of(guarded(|| d.decode_packet(v)));
        let (d0, r0) = (delivered.get(), reads.get());
        let more = guarded(|| d.has_more());
        let more_k = match more {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "panic",
        };
        let pos = if reads.get() > r0 || more_k != "yes" { d0 } else { d0 - 1 };
        let stop = out == Out::Panic || more_k == "panic";
        o.push(Call { out, pos, more: more_k });
        if stop || more_k != "yes" {
            break;
        }
    }
    o
}

/// outcomes only, for any delivery
pub fn run_any(data: &Rc<Vec<u8>>, vs: &[u8], plan: Plan, c: Ctor, polls: usize, max_calls: usize) -> Vec<Out> {
    let mut d = decoder(Src::new(data.clone(), plan), c);
    let mut o = vec![];
    for k in 0..max_calls {
        BEAT.fetch_add(1, Ordering::Relaxed);
        let mut more = true;
        for _ in 0..polls {
            match guarded(|| d.has_more()) {
                Ok(x) => more = x,
                Err(_) => {
                    o.push(Out::Panic);
                    return o;
                }
            }
        }
        if !more {
            break;
        }
        let out = Out::of(guarded(|| d.decode_packet(vs[k % vs.len()])));
        let stop = out == Out::Panic;
        o.push(out);
        if stop {
            break;
        }
    }
    o
}

pub fn decode_one(data: &[u8], v: u8) -> Out {
    let src = Src::new(Rc::new(data.to_vec()), Plan::whole());
    let mut d = decoder(src, Ctor::Stream);
    Out::of(guarded(|| d.decode_packet(v)))
}
