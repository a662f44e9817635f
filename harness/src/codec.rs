//! C18: the frame codec under round trips, fragmentation and hostile bytes.
use crate::prop::*;
use hydra::ExitReason;
use hydra::verif::frame::{Codec, Exit, Frame, Hello, Link, LinkDown, Monitor, MonitorDown, MonitorUpdate, Send, SendTarget};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::{IpAddr, SocketAddr};
use std::num::NonZeroU64;
use tokio_util::bytes::BytesMut;
use tokio_util::codec::{Decoder, Encoder};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TargetSpec {
    Pid(u64),
    Named(String),
    Alias(u64),
}

/// A byte payload, kept short in replays: `len` bytes derived from `seed`.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Blob {
    seed: u8,
    len: u32,
}

impl Blob {
    fn bytes(&self) -> Vec<u8> {
        let mut x = self.seed as u32 | 0x100;
        (0..self.len)
            .map(|_| {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                if self.seed == 0 { 0 } else if self.seed == 255 { 255 } else { (x >> 24) as u8 }
            })
            .collect()
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum FrameSpec {
    Hello { name: String, addr: SocketAddr, challenge: Blob },
    Ping,
    Pong,
    Send { targets: Vec<TargetSpec>, message: Blob },
    Monitor { install: bool, id: Option<u64>, name: Option<String>, from: Option<u64>, reference: u64 },
    MonitorDown { monitors: Vec<u64>, reason: ExitReason },
    MonitorUpdate { process: u64, from: u64, reference: u64 },
    Link { install: bool, process: u64, from: u64 },
    LinkDown { links: Vec<u64>, from: u64, reason: ExitReason },
    Exit { process: u64, from: u64, reason: ExitReason },
}

fn nz(id: u64) -> NonZeroU64 {
    NonZeroU64::new(id).unwrap_or(NonZeroU64::MIN)
}

impl FrameSpec {
    pub fn build(&self) -> Frame {
        match self.clone() {
            FrameSpec::Hello { name, addr, challenge } => Frame::Hello(Hello { name, broadcast_address: addr, challenge: challenge.bytes() }),
            FrameSpec::Ping => Frame::Ping,
            FrameSpec::Pong => Frame::Pong,
            FrameSpec::Send { targets, message } => Frame::Send(Send {
                targets: targets
                    .into_iter()
                    .map(|t| match t {
                        TargetSpec::Pid(id) => SendTarget::Pid(nz(id)),
                        TargetSpec::Named(name) => SendTarget::Named(name),
                        TargetSpec::Alias(id) => SendTarget::Alias(nz(id)),
                    })
                    .collect(),
                message: message.bytes(),
            }),
            FrameSpec::Monitor { install, id, name, from, reference } => {
                Frame::Monitor(Monitor { install, process_id: id, process_name: name, from_id: from, reference_id: reference })
            }
            FrameSpec::MonitorDown { monitors, reason } => Frame::MonitorDown(MonitorDown { monitors, exit_reason: reason }),
            FrameSpec::MonitorUpdate { process, from, reference } => {
                Frame::MonitorUpdate(MonitorUpdate { process_id: process, from_id: from, reference_id: reference })
            }
            FrameSpec::Link { install, process, from } => Frame::Link(Link { install, process_id: process, from_id: from }),
            FrameSpec::LinkDown { links, from, reason } => Frame::LinkDown(LinkDown { links, from_id: from, exit_reason: reason }),
            FrameSpec::Exit { process, from, reason } => Frame::Exit(Exit { process_id: process, from_id: from, exit_reason: reason }),
        }
    }

    /// Compares a decoded frame with what was encoded, field by field and without the library's own formatting.
    fn same(&self, frame: &Frame) -> bool {
        match (self, frame) {
            (FrameSpec::Hello { name, addr, challenge }, Frame::Hello(h)) => {
                *name == h.name && *addr == h.broadcast_address && challenge.bytes() == h.challenge
            }
            (FrameSpec::Ping, Frame::Ping) | (FrameSpec::Pong, Frame::Pong) => true,
            (FrameSpec::Send { targets, message }, Frame::Send(s)) => {
                message.bytes() == s.message
                    && targets.len() == s.targets.len()
                    && targets.iter().zip(&s.targets).all(|(a, b)| match (a, b) {
                        (TargetSpec::Pid(a), SendTarget::Pid(b)) | (TargetSpec::Alias(a), SendTarget::Alias(b)) => nz(*a) == *b,
                        (TargetSpec::Named(a), SendTarget::Named(b)) => a == b,
                        _ => false,
                    })
            }
            (FrameSpec::Monitor { install, id, name, from, reference }, Frame::Monitor(m)) => {
                *install == m.install && *id == m.process_id && *name == m.process_name && *from == m.from_id && *reference == m.reference_id
            }
            (FrameSpec::MonitorDown { monitors, reason }, Frame::MonitorDown(m)) => *monitors == m.monitors && *reason == m.exit_reason,
            (FrameSpec::MonitorUpdate { process, from, reference }, Frame::MonitorUpdate(m)) => {
                *process == m.process_id && *from == m.from_id && *reference == m.reference_id
            }
            (FrameSpec::Link { install, process, from }, Frame::Link(l)) => {
                *install == l.install && *process == l.process_id && *from == l.from_id
            }
            (FrameSpec::LinkDown { links, from, reason }, Frame::LinkDown(l)) => {
                *links == l.links && *from == l.from_id && *reason == l.exit_reason
            }
            (FrameSpec::Exit { process, from, reason }, Frame::Exit(e)) => {
                *process == e.process_id && *from == e.from_id && *reason == e.exit_reason
            }
            _ => false,
        }
    }
}

pub fn any_id() -> BoxedStrategy<u64> {
    prop_oneof![4 => 1u64..300, 1 => Just(0u64), 1 => Just(u64::MAX), 2 => any::<u64>()].boxed()
}

pub fn any_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,8}",
        1 => Just(String::new()),
        2 => ".{0,20}",
        1 => (200usize..3000).prop_map(|n| "ü".repeat(n)),
    ]
    .boxed()
}

pub fn any_addr() -> BoxedStrategy<SocketAddr> {
    prop_oneof![
        3 => (any::<[u8; 4]>(), any::<u16>()).prop_map(|(ip, p)| SocketAddr::new(IpAddr::from(ip), p)),
        1 => (any::<[u8; 16]>(), any::<u16>()).prop_map(|(ip, p)| SocketAddr::new(IpAddr::from(ip), p)),
    ]
    .boxed()
}

pub fn any_reason() -> BoxedStrategy<ExitReason> {
    prop_oneof![
        Just(ExitReason::Normal),
        Just(ExitReason::Kill),
        Just(ExitReason::Ignore),
        any_name().prop_map(ExitReason::Custom),
    ]
    .boxed()
}

fn blob() -> BoxedStrategy<Blob> {
    (any::<u8>(), prop_oneof![6 => 0u32..40, 2 => 40u32..5000, 1 => 60_000u32..140_000]).prop_map(|(seed, len)| Blob { seed, len }).boxed()
}

pub fn any_frame() -> BoxedStrategy<FrameSpec> {
    let target = prop_oneof![
        any_id().prop_map(TargetSpec::Pid),
        any_name().prop_map(TargetSpec::Named),
        any_id().prop_map(TargetSpec::Alias)
    ];
    prop_oneof![
        2 => (any_name(), any_addr(), blob()).prop_map(|(name, addr, challenge)| FrameSpec::Hello { name, addr, challenge }),
        1 => Just(FrameSpec::Ping),
        1 => Just(FrameSpec::Pong),
        4 => (proptest::collection::vec(target, 0..8), blob()).prop_map(|(targets, message)| FrameSpec::Send { targets, message }),
        2 => (any::<bool>(), proptest::option::of(any_id()), proptest::option::of(any_name()), proptest::option::of(any_id()), any_id())
            .prop_map(|(install, id, name, from, reference)| FrameSpec::Monitor { install, id, name, from, reference }),
        2 => (proptest::collection::vec(any_id(), 0..12), any_reason()).prop_map(|(monitors, reason)| FrameSpec::MonitorDown { monitors, reason }),
        1 => (any_id(), any_id(), any_id()).prop_map(|(process, from, reference)| FrameSpec::MonitorUpdate { process, from, reference }),
        2 => (any::<bool>(), any_id(), any_id()).prop_map(|(install, process, from)| FrameSpec::Link { install, process, from }),
        2 => (proptest::collection::vec(any_id(), 0..12), any_id(), any_reason())
            .prop_map(|(links, from, reason)| FrameSpec::LinkDown { links, from, reason }),
        2 => (any_id(), any_id(), any_reason()).prop_map(|(process, from, reason)| FrameSpec::Exit { process, from, reason }),
    ]
    .boxed()
}

/// How a byte stream is cut into reads.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Cuts {
    /// Chunk sizes, used cyclically; 0 is an empty read.
    sizes: Vec<u32>,
    /// Initial capacity of the read buffer.
    capacity: u16,
    /// Only decode after every n-th read.
    every: u8,
}

fn cuts() -> BoxedStrategy<Cuts> {
    let size = prop_oneof![3 => 1u32..6, 3 => 0u32..64, 2 => 64u32..9000, 1 => Just(u32::MAX)];
    (proptest::collection::vec(size, 1..10), prop_oneof![Just(0u16), 1u16..64, Just(8192u16)], 1u8..4)
        .prop_map(|(sizes, capacity, every)| Cuts { sizes, capacity, every })
        .boxed()
}

impl Cuts {
    fn split<'a>(&self, bytes: &'a [u8]) -> Vec<&'a [u8]> {
        let mut out = Vec::new();
        let mut rest = bytes;
        let mut i = 0;
        while !rest.is_empty() {
            let mut n = (self.sizes[i % self.sizes.len()] as usize).min(rest.len());
            if i % self.sizes.len() == self.sizes.len() - 1 && self.sizes.iter().all(|s| *s == 0) {
                n = 1;
            }
            // Tiny cuts of a large stream are no different from one another.
            if out.len() > 400 {
                n = n.max(rest.len().div_ceil(20));
            }
            out.push(&rest[..n]);
            rest = &rest[n..];
            i += 1;
        }
        out
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct RoundCase {
    frames: Vec<FrameSpec>,
    cuts: Cuts,
}

fn run_round(case: &RoundCase) -> Outcome {
    let mut codec = Codec::new();
    let mut wire = BytesMut::new();
    let mut ends = Vec::new();
    for (i, f) in case.frames.iter().enumerate() {
        let start = wire.len();
        if let Err(e) = codec.encode(f.build(), &mut wire) {
            return Outcome::fail(format!("frame {i} does not encode: {e}"));
        }
        // A frame encodes to the same bytes whatever precedes it.
        let mut alone = BytesMut::new();
        codec.encode(f.build(), &mut alone).unwrap();
        if alone[..] != wire[start..] {
            return Outcome::fail(format!("frame {i} encodes differently behind other frames"));
        }
        if wire.len() - start < 4 || u32::from_le_bytes(wire[start..start + 4].try_into().unwrap()) as usize != wire.len() - start - 4 {
            return Outcome::fail(format!("frame {i}: the marker does not tell the length of the frame"));
        }
        ends.push(wire.len());
    }
    let wire = wire.freeze();
    let mut buf = BytesMut::with_capacity(case.cuts.capacity as usize);
    let mut fed = 0;
    let mut done = 0;
    let mut partial = false;
    let chunks = case.cuts.split(&wire);
    let last = chunks.len();
    for (n, chunk) in chunks.into_iter().enumerate() {
        buf.extend_from_slice(chunk);
        fed += chunk.len();
        if !(n + 1).is_multiple_of(case.cuts.every as usize) && n + 1 != last {
            continue;
        }
        loop {
            let complete = done < ends.len() && ends[done] <= fed;
            let got = match codec.decode(&mut buf) {
                Ok(g) => g,
                Err(e) => return Outcome::fail(format!("frame {done} fails to decode: {e}")),
            };
            match got {
                None if complete => return Outcome::fail(format!("frame {done} is complete but not decoded")),
                None => {
                    partial |= !buf.is_empty();
                    let consumed = fed - buf.len();
                    let expected = if done == 0 { 0 } else { ends[done - 1] };
                    if consumed != expected {
                        return Outcome::fail(format!("after {done} frames {consumed} bytes are consumed, expected {expected}"));
                    }
                    break;
                }
                Some(_) if !complete => return Outcome::fail(format!("frame {done} decoded before all of it arrived")),
                Some(frame) => {
                    if !case.frames[done].same(&frame) {
                        return Outcome::fail(format!("frame {done} decodes to something else: {:?}", frame));
                    }
                    done += 1;
                    let consumed = fed - buf.len();
                    if consumed != ends[done - 1] {
                        return Outcome::fail(format!("after {done} frames {consumed} bytes are consumed, expected {}", ends[done - 1]));
                    }
                }
            }
        }
    }
    if done != case.frames.len() {
        return Outcome::fail(format!("{done} of {} frames decoded", case.frames.len()));
    }
    let mut o = Outcome::ok(case.frames.len() >= 2 && partial);
    for f in &case.frames {
        o = o.class(match f {
            FrameSpec::Hello { .. } => "hello",
            FrameSpec::Ping => "ping",
            FrameSpec::Pong => "pong",
            FrameSpec::Send { .. } => "send",
            FrameSpec::Monitor { .. } => "monitor",
            FrameSpec::MonitorDown { .. } => "monitor_down",
            FrameSpec::MonitorUpdate { .. } => "monitor_update",
            FrameSpec::Link { .. } => "link",
            FrameSpec::LinkDown { .. } => "link_down",
            FrameSpec::Exit { .. } => "exit",
        });
    }
    if partial {
        o = o.class("split_inside_a_frame");
    }
    if wire.len() > 65_536 {
        o = o.class("large");
    }
    o
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Piece {
    Valid(FrameSpec),
    /// A valid frame, mutated (positions modulo its length).
    Mutated(FrameSpec, Vec<Mutation>),
    /// A marker, and that many random body bytes (at most).
    Framed { declared: u32, seed: u8, body: u16 },
    /// A variant tag followed by noise, with a truthful marker.
    Tagged { tag: u32, noise: Vec<u8> },
    Raw(Vec<u8>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Mutation {
    Flip(u16, u8),
    Set(u16, u8),
    /// Overwrites eight bytes of the body.
    Word(u16, u64),
    Truncate(u16),
    Delete(u16, u8),
    Insert(u16, Vec<u8>),
    /// Removes bytes from the end of the body and corrects the marker.
    ShortBody(u16),
    LongBody(u8),
    Marker(u32),
}

fn mutate(bytes: &mut Vec<u8>, m: &Mutation) {
    let len = bytes.len();
    if len == 0 {
        return;
    }
    let at = |p: u16| p as usize % len;
    let remark = |bytes: &mut Vec<u8>| {
        if bytes.len() >= 4 {
            let n = (bytes.len() - 4) as u32;
            bytes[..4].copy_from_slice(&n.to_le_bytes());
        }
    };
    match m {
        Mutation::Flip(p, b) => bytes[at(*p)] ^= 1 << (b % 8),
        Mutation::Set(p, v) => bytes[at(*p)] = *v,
        Mutation::Word(p, v) => {
            let i = 4 + *p as usize % len.saturating_sub(4).max(1);
            for (k, b) in v.to_le_bytes().iter().enumerate() {
                if i + k < len {
                    bytes[i + k] = *b;
                }
            }
        }
        Mutation::Truncate(p) => bytes.truncate(at(*p)),
        Mutation::Delete(p, n) => {
            let i = at(*p);
            bytes.drain(i..(i + *n as usize).min(len));
        }
        Mutation::Insert(p, v) => {
            let i = at(*p);
            bytes.splice(i..i, v.iter().copied());
        }
        Mutation::ShortBody(p) => {
            bytes.truncate(len.saturating_sub(1 + *p as usize % len.saturating_sub(4).max(1)).max(4));
            remark(bytes);
        }
        Mutation::LongBody(n) => {
            bytes.extend(std::iter::repeat_n(0xA5, *n as usize));
            remark(bytes);
        }
        Mutation::Marker(v) => {
            for (k, b) in v.to_le_bytes().iter().enumerate() {
                if k < len {
                    bytes[k] = *b;
                }
            }
        }
    }
}

fn mutation() -> BoxedStrategy<Mutation> {
    let word = prop_oneof![any::<u64>(), Just(u64::MAX), Just(u32::MAX as u64), Just(1u64 << 63), 0u64..40, Just(0xFFFF_FFF0u64), Just(0u64)];
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| Mutation::Flip(p, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| Mutation::Set(p, b)),
        3 => (0u16..60, word).prop_map(|(p, v)| Mutation::Word(p, v)),
        1 => any::<u16>().prop_map(Mutation::Truncate),
        1 => (any::<u16>(), 1u8..20).prop_map(|(p, n)| Mutation::Delete(p, n)),
        1 => (any::<u16>(), proptest::collection::vec(any::<u8>(), 1..12)).prop_map(|(p, v)| Mutation::Insert(p, v)),
        2 => any::<u16>().prop_map(Mutation::ShortBody),
        1 => (1u8..40).prop_map(Mutation::LongBody),
        2 => prop_oneof![any::<u32>(), Just(u32::MAX), Just(u32::MAX - 4), 0u32..200].prop_map(Mutation::Marker),
    ]
    .boxed()
}

pub fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        2 => any_frame().prop_map(Piece::Valid),
        5 => (any_frame(), proptest::collection::vec(mutation(), 1..4)).prop_map(|(f, m)| Piece::Mutated(f, m)),
        2 => (prop_oneof![any::<u32>(), 0u32..300, Just(u32::MAX)], any::<u8>(), 0u16..400)
            .prop_map(|(declared, seed, body)| Piece::Framed { declared, seed, body }),
        3 => (prop_oneof![0u32..12, any::<u32>()], proptest::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(255u8), any::<u8>()], 0..60))
            .prop_map(|(tag, noise)| Piece::Tagged { tag, noise }),
        1 => proptest::collection::vec(any::<u8>(), 0..40).prop_map(Piece::Raw),
    ]
    .boxed()
}

pub fn piece_bytes(p: &Piece) -> Vec<u8> {
    let enc = |f: &FrameSpec| {
        let mut b = BytesMut::new();
        Codec::new().encode(f.build(), &mut b).expect("HARNESS: encode");
        b.to_vec()
    };
    match p {
        Piece::Valid(f) => enc(f),
        Piece::Mutated(f, ms) => {
            let mut b = enc(f);
            for m in ms {
                mutate(&mut b, m);
            }
            b
        }
        Piece::Framed { declared, seed, body } => {
            let mut b = declared.to_le_bytes().to_vec();
            b.extend(Blob { seed: *seed, len: *body as u32 }.bytes());
            b
        }
        Piece::Tagged { tag, noise } => {
            let mut b = (4 + noise.len() as u32).to_le_bytes().to_vec();
            b.extend(tag.to_le_bytes());
            b.extend(noise);
            b
        }
        Piece::Raw(v) => v.clone(),
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct HostileCase {
    pieces: Vec<Piece>,
    cuts: Cuts,
}

fn run_hostile(case: &HostileCase) -> Outcome {
    let wire: Vec<u8> = case.pieces.iter().flat_map(piece_bytes).collect();
    let mut codec = Codec::new();
    let mut buf = BytesMut::with_capacity(case.cuts.capacity as usize);
    let mut received = 0;
    let (mut good, mut bad, mut waits) = (0, false, false);
    'feed: for chunk in case.cuts.split(&wire) {
        buf.extend_from_slice(chunk);
        received += chunk.len();
        loop {
            let before = buf.len();
            let copy = buf.to_vec();
            let result = codec.decode(&mut buf);
            if buf.capacity() > (16 << 20) + 4 * received {
                return Outcome::fail(format!("the read buffer grew to {} bytes after {received} received bytes", buf.capacity()));
            }
            let declared = if before >= 4 { Some(u32::from_le_bytes(copy[..4].try_into().unwrap()) as usize) } else { None };
            let complete = declared.is_some_and(|n| before >= 4 + n);
            match result {
                Ok(None) => {
                    if complete {
                        return Outcome::fail(format!("a complete frame of {} bytes makes the decoder wait", declared.unwrap()));
                    }
                    if buf[..] != copy[..] {
                        return Outcome::fail("waiting for more changes the received bytes");
                    }
                    waits |= before > 0;
                    break;
                }
                Ok(Some(frame)) => {
                    if !complete {
                        return Outcome::fail("an incomplete frame was decoded");
                    }
                    let n = 4 + declared.unwrap();
                    if buf[..] != copy[n..] {
                        return Outcome::fail(format!("a frame of {n} bytes consumed {} bytes", before as i64 - buf.len() as i64));
                    }
                    let mut alone = BytesMut::from(&copy[..n]);
                    match codec.decode(&mut alone) {
                        Ok(Some(f)) if format!("{f:?}") == format!("{frame:?}") => {}
                        other => return Outcome::fail(format!("a frame decodes differently on its own: {frame:?} / {other:?}")),
                    }
                    // What was decoded is a frame like any other.
                    let text = format!("{frame:?}");
                    let mut again = BytesMut::new();
                    if let Err(e) = codec.encode(frame, &mut again) {
                        return Outcome::fail(format!("a decoded frame does not encode: {e}"));
                    }
                    match codec.decode(&mut again) {
                        Ok(Some(f)) if format!("{f:?}") == text => {}
                        other => return Outcome::fail(format!("a decoded frame does not round trip: {text} / {other:?}")),
                    }
                    good += 1;
                }
                Err(_) => {
                    if !complete {
                        return Outcome::fail("an incomplete frame is an error");
                    }
                    // The complete frame alone is an error too.
                    let mut alone = BytesMut::from(&copy[..4 + declared.unwrap()]);
                    if !matches!(codec.decode(&mut alone), Err(_)) {
                        return Outcome::fail("a frame is only malformed when more bytes follow");
                    }
                    bad = true;
                    break 'feed;
                }
            }
        }
    }
    let mut o = Outcome::ok(bad || (good > 0 && waits));
    if bad {
        o = o.class("error");
    }
    if good > 0 {
        o = o.class("some_frames_decoded");
    }
    if waits {
        o = o.class("waits_for_more");
    }
    o
}

pub fn subs() -> (Vec<Box<dyn DynSub>>, &'static str, Vec<&'static str>) {
    let round = Sub::new(
        "round-trip",
        (150_000, 15),
        || (proptest::collection::vec(any_frame(), 1..8), cuts()).prop_map(|(frames, cuts)| RoundCase { frames, cuts }).boxed(),
        run_round,
    )
    .hang_violates(std::time::Duration::from_secs(60));
    let hostile = Sub::new(
        "hostile-bytes",
        (300_000, 15),
        || (proptest::collection::vec(piece(), 1..5), cuts()).prop_map(|(pieces, cuts)| HostileCase { pieces, cuts }).boxed(),
        run_hostile,
    )
    .hang_violates(std::time::Duration::from_secs(60));
    (
        vec![round.boxed(), hostile.boxed(), crate::serving::sub()],
        "round-trip: several frames, at least one read ending inside a frame; hostile-bytes: the stream contains a malformed frame, or a frame followed by an incomplete one; hostile-node: hostile bytes reached a listening node while a healthy peer was using it",
        vec![
            "IPv6 scope ids and flow labels do not exist on the wire and are not generated",
            "bytes left over inside the body of a well-formed frame are accepted or rejected, either is fine",
            "memory is judged by the size of the read buffer",
        ],
    )
}
