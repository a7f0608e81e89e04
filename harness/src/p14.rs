//! P14: sounds as audio files.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p11::table_of;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::sound::{read_sound, write_sound, OutputTarget, SoundData, WaveForm};

/// format tag, channels, samples/s, avg bytes/s, block align, bits
type Fmt = (u16, u16, u32, u32, u16, u16);

/// What an independent reader finds in a WAV file.
struct Wav {
    fmt: Fmt,
    /// cbSize and the bytes it counts
    ext: Option<(u16, Vec<u8>)>,
    data: Vec<u8>,
}
/// Strict reader of a RIFF WAVE file; only the pad byte at the very end of the file may be missing.
fn read_wav(d: &[u8]) -> Result<Wav, String> {
    let u16a = |b: &[u8], i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let u32a = |b: &[u8], i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    ensure!(d.len() >= 12 && &d[..4] == b"RIFF" && &d[8..12] == b"WAVE", "not a RIFF WAVE file");
    let size = u32a(d, 4) as usize;
    ensure!(size + 8 == d.len() || size + 8 == d.len() + 1, "RIFF size {size} of a file of {} bytes", d.len());
    let mut at = 12;
    let (mut fmt, mut data) = (None, None);
    while at < d.len() {
        ensure!(at + 8 <= d.len(), "chunk header cut at {at}");
        let id = &d[at..at + 4];
        let n = u32a(d, at + 4) as usize;
        ensure!(at + 8 + n <= d.len(), "chunk {} of {n} bytes at {at} of {}", String::from_utf8_lossy(id), d.len());
        let b = &d[at + 8..at + 8 + n];
        match id {
            b"fmt " => {
                ensure!(fmt.is_none(), "two fmt chunks");
                ensure!(data.is_none(), "fmt chunk after the data");
                ensure!(n == 16 || n >= 18, "fmt chunk of {n} bytes");
                let f = (u16a(b, 0), u16a(b, 2), u32a(b, 4), u32a(b, 8), u16a(b, 12), u16a(b, 14));
                let ext = (n >= 18).then(|| (u16a(b, 16), b[18..].to_vec()));
                if let Some((cb, x)) = &ext {
                    ensure!(*cb as usize == x.len(), "cbSize {cb} with {} bytes", x.len());
                }
                ensure!(ext.is_some() || f.0 == 1, "format {} without cbSize", f.0);
                fmt = Some((f, ext));
            }
            b"data" => {
                ensure!(data.is_none(), "two data chunks");
                ensure!(fmt.is_some(), "data before fmt");
                data = Some(b.to_vec());
            }
            _ => ensure!(id.iter().all(|c| (32..127).contains(c)), "chunk id {id:?}"),
        }
        at += 8 + n + (n & 1);
    }
    // at most that pad byte is counted
    ensure!(size + 8 == d.len() || size + 8 == at, "RIFF size {size} of {} bytes of chunks", at - 12);
    let (fmt, ext) = fmt.ok_or("no fmt chunk")?;
    Ok(Wav { fmt, ext, data: data.ok_or("no data chunk")? })
}

fn gen_fmt(t: &mut Tape, pcm: bool) -> Fmt {
    let ch = *t.pick(&[1u16, 2, 6, 8]);
    let bits = *t.pick(&[8u16, 16, 24, 32]);
    let rate = *t.pick(&[8000u32, 11025, 22050, 44100, 48000, 192000]);
    let tag = if pcm { 1 } else { *t.pick(&[3u16, 2, 17, 6, 7, 85, 0xfffe, 49, 0]) };
    if t.chance(1, 4) {
        return (tag, t.any() as u16, t.any() as u32, t.any() as u32, t.any() as u16, t.any() as u16);
    }
    (tag, ch, rate, rate * (ch * bits / 8) as u32, ch * bits / 8, bits)
}
fn gen_samples(t: &mut Tape) -> Vec<u8> {
    let n = match t.below(6) {
        0 => 0,
        1 => t.usize(0, 9),
        2 => t.usize(0, 70000),
        3 => *t.pick(&[65535usize, 65536, 32767, 32768]),
        _ => t.usize(0, 300),
    };
    match t.below(4) {
        // samples that look like chunks
        0 => b"data\x04\0\0\0LIST\0\0\0\0fmt ".iter().cycle().take(n).copied().collect(),
        1 => vec![t.any() as u8; n],
        _ => t.bytes(n),
    }
}
fn chunk(o: &mut Vec<u8>, id: &[u8; 4], b: &[u8], pad: bool) {
    o.extend_from_slice(id);
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    o.extend_from_slice(b);
    if b.len() % 2 == 1 && pad {
        o.push(0);
    }
}
fn extra(t: &mut Tape, o: &mut Vec<u8>, ids: &[&[u8; 4]]) {
    for _ in 0..t.below(3) {
        let n = t.small_len(40);
        let b = if t.chance(1, 4) { b"data\x02\0\0\0fmt ".iter().cycle().take(n).copied().collect() } else { t.bytes(n) };
        let k = t.usize(0, ids.len() - 1);
        chunk(o, ids[k], &b, true);
    }
}
/// A standard WAV file of another program. Returns the file and cbSize.
fn gen_wav(t: &mut Tape, f: Fmt, data: &[u8], c: &mut Case) -> (Vec<u8>, u16) {
    let mut o = b"RIFF\0\0\0\0WAVE".to_vec();
    let at = o.len();
    extra(t, &mut o, &[b"JUNK", b"bext", b"id3 ", b"LIST", b"DISP"]);
    c.class_if(o.len() > at, "chunks before the format");
    let mut b = vec![];
    b.extend_from_slice(&f.0.to_le_bytes());
    b.extend_from_slice(&f.1.to_le_bytes());
    b.extend_from_slice(&f.2.to_le_bytes());
    b.extend_from_slice(&f.3.to_le_bytes());
    b.extend_from_slice(&f.4.to_le_bytes());
    b.extend_from_slice(&f.5.to_le_bytes());
    let mut cb = 0;
    // format chunks of 16 bytes are only standard for PCM, but float files have them too
    if f.0 != 1 && f.0 != 3 || t.bool() {
        cb = *t.pick(&[0u16, 22, 2, 32, 5, 1]);
        if f.0 == 0xfffe {
            cb = 22;
        }
        let len = cb as usize;
        if t.chance(1, 5) {
            // the size of the chunk counts, not the one of the extension
            cb = *t.pick(&[0u16, 22, 40, 1, 0xffff]);
            c.class("extension of another size than stated");
        }
        b.extend_from_slice(&cb.to_le_bytes());
        b.extend(t.bytes(len));
        c.class(if len == 0 { "18 byte format" } else if len % 2 == 1 { "odd format chunk" } else { "extended format" });
    }
    chunk(&mut o, b"fmt ", &b, true);
    let at = o.len();
    extra(t, &mut o, &[b"fact", b"LIST", b"cue ", b"smpl", b"PEAK"]);
    c.class_if(o.len() > at, "chunks between format and data");
    let tail = {
        let mut v = vec![];
        extra(t, &mut v, &[b"LIST", b"id3 ", b"cue ", b"fmt2", b"afsp", b"data"]);
        v
    };
    c.class_if(!tail.is_empty(), "chunks after the data");
    c.class_if(data.len() % 2 == 1, "odd data");
    let pad = !tail.is_empty() || t.chance(3, 4);
    chunk(&mut o, b"data", data, pad);
    o.extend(tail);
    let n = (o.len() - 8) as u32;
    o[4..8].copy_from_slice(&n.to_le_bytes());
    (o, cb)
}
fn gen_path(t: &mut Tape, wav: bool) -> String {
    let base = t.pick(&["C:\\tables\\snd", "/home/u.x/snd", "snd", "* Backglass Output *", "a.b"]).to_string();
    if wav {
        match t.below(4) {
            0 if !base.contains("a.b") => base,
            1 => format!("{base}.WAV"),
            _ => format!("{base}.wav"),
        }
    } else {
        format!("{base}.{}", t.pick(&["mp3", "ogg", "MP3", "flac", "wave"]))
    }
}
fn wave_form(f: Fmt, cb: u16) -> WaveForm {
    WaveForm { format_tag: f.0, channels: f.1, samples_per_sec: f.2, avg_bytes_per_sec: f.3, block_align: f.4, bits_per_sample: f.5, cb_size: cb }
}
fn blank(path: &str) -> SoundData {
    SoundData { name: "s".into(), path: path.into(), wave_form: WaveForm::default(), data: vec![], internal_name: String::new(), fade: 1, volume: 2, balance: 3, output_target: OutputTarget::Table }
}

fn export(t: &mut Tape, c: &mut Case) -> Res {
    let wav = t.chance(4, 5);
    let pcm = t.chance(2, 3);
    let f = gen_fmt(t, pcm);
    let cb = if pcm { 0 } else { *t.pick(&[0u16, 22, 2, 1, 7, 256]) };
    let data = gen_samples(t);
    let path = gen_path(t, wav);
    let mut s = blank(&path);
    s.data = data.clone();
    s.wave_form = wave_form(f, cb);
    c.hash = crate::tape::hash_bytes(&data) ^ f.2 as u64 ^ ((f.0 as u64) << 40) ^ ((f.1 as u64) << 20) ^ path.len() as u64;
    c.nontrivial = !data.is_empty();
    c.class(if !wav { "compressed" } else if pcm { "PCM" } else { "other format" });
    c.class_if(data.len() % 2 == 1, "odd length");
    c.sample = Some(json!({"path": path, "format": format!("{f:?}"), "cb": cb, "bytes": data.len()}));
    let out = write_sound(&s);
    if !wav {
        ensure!(out == data, "{path}: a compressed sound is exported as {} bytes of {}", out.len(), data.len());
    } else {
        let w = read_wav(&out).map_err(|e| format!("exported WAV file of {} bytes of sound is not valid: {e}", data.len()))?;
        ensure!(w.fmt == f, "format {f:?} exported as {:?}", w.fmt);
        ensure!(w.data == data, "{} bytes of sound exported as {}", data.len(), w.data.len());
        ensure!(w.ext.as_ref().is_none_or(|x| x.0 == cb) && (pcm || w.ext.is_some()), "cbSize {cb} exported as {:?}", w.ext.map(|x| x.0));
    }
    let mut back = blank(&path);
    read_sound(&out, &mut back).map_err(|e| format!("cannot import the exported file: {e}"))?;
    ensure!(back.data == data, "{} bytes of sound come back as {}", data.len(), back.data.len());
    ensure!(!wav || back.wave_form == s.wave_form, "format {:?} comes back as {:?}", s.wave_form, back.wave_form);
    ensure!(back.name == "s" && back.path == path && (back.fade, back.volume, back.balance) == (1, 2, 3), "other fields changed");
    Ok(())
}

fn import(t: &mut Tape, c: &mut Case) -> Res {
    let pcm = t.chance(2, 3);
    let f = gen_fmt(t, pcm);
    let data = gen_samples(t);
    let (file, cb) = gen_wav(t, f, &data, c);
    c.hash = crate::tape::hash_bytes(&file);
    c.nontrivial = c.classes.len() > 0;
    c.sample = Some(json!({"format": format!("{f:?}"), "bytes": data.len(), "file": file.len(), "starts": hex::encode(&file[..file.len().min(80)])}));
    let mut s = blank(&gen_path(t, true));
    read_sound(&file, &mut s).map_err(|e| format!("a valid WAV file is refused: {e}"))?;
    let want = wave_form(f, if pcm { 0 } else { cb });
    ensure!(s.wave_form == want, "format read as {:?}, expected {want:?}", s.wave_form);
    ensure!(s.data == data, "{} bytes of sound read as {}", data.len(), s.data.len());
    // what is imported exports the same sound
    let w = read_wav(&write_sound(&s)).map_err(|e| format!("import exports as an invalid file: {e}"))?;
    ensure!(w.fmt == f && w.data == data, "an imported sound exports differently");
    Ok(())
}

/// Whole tables: exported files, and files replaced by other programs.
fn tables(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = table_of(t, vec![]);
    tb.sounds.clear();
    let n = t.usize(1, 4);
    for i in 0..n {
        let mut s = gen_sound(t, &Prof::default(), i);
        let pcm = s.fmt.0 == 1 || t.bool();
        let f = gen_fmt(t, pcm);
        s.fmt = (f.0, f.1, f.2, f.3, f.4, f.5, if pcm { 0 } else { *t.pick(&[0, 22, 2]) });
        s.name = format!("S{i}");
        let wav = t.chance(4, 5);
        s.path = gen_path(t, wav);
        s.data = gen_samples(t);
        s.data.truncate(3000);
        tb.sounds.push(s);
    }
    tb.fix_counts();
    let old = tb.streams();
    c.hash = streams_hash(&old);
    let v = parse(&old)?;
    let mut files = expand(&v, t.below(3), false)?;
    let mut new = tb.clone();
    for s in new.sounds.iter_mut() {
        let wav = is_wav_path(&s.path);
        let ext = s.path.rsplit(['/', '\\']).next().unwrap().rsplit_once('.').map(|x| x.1).unwrap_or("wav");
        let k = format!("{ROOT}/sounds/{}.{ext}", s.name);
        let d = files.get(&k).ok_or_else(|| format!("no file {k}, there are {:?}", files.keys().filter(|x| x.contains("sounds")).collect::<Vec<_>>()))?;
        if wav {
            let w = read_wav(d).map_err(|e| format!("{k} is not valid: {e}"))?;
            let f = s.fmt;
            ensure!(w.fmt == (f.0, f.1, f.2, f.3, f.4, f.5), "{k}: format {:?} exported as {:?}", f, w.fmt);
            ensure!(w.data == s.data, "{k}: other samples");
        } else {
            ensure!(*d == s.data, "{k}: other bytes");
        }
        if t.bool() {
            c.class("file replaced");
            c.nontrivial = true;
            let mut data = gen_samples(t);
            data.truncate(2000);
            if wav {
                let pcm = t.chance(2, 3);
                let f = gen_fmt(t, pcm);
                let (file, cb) = gen_wav(t, f, &data, c);
                s.fmt = (f.0, f.1, f.2, f.3, f.4, f.5, if pcm { 0 } else { cb });
                files.insert(k, file);
            } else {
                files.insert(k, data.clone());
            }
            s.data = data;
        }
    }
    let back = assemble(&files)?;
    let got = crate::exp::save(&back)?;
    let want = new.streams();
    for i in 0..n {
        let k = format!("/GameStg/Sound{i}");
        ensure!(got.get(&k) == want.get(&k), "sound {i} ({}) is assembled differently", tb.sounds[i].path);
    }
    Ok(())
}

/// Damaged files never crash the reader.
fn damaged(t: &mut Tape, c: &mut Case) -> Res {
    let pcm = t.bool();
    let f = gen_fmt(t, pcm);
    let mut data = gen_samples(t);
    data.truncate(400);
    let (mut d, _) = gen_wav(t, f, &data, &mut Case::default());
    for _ in 0..t.usize(1, 3) {
        if d.is_empty() {
            break;
        }
        match t.below(7) {
            0 => {
                c.class("truncated");
                let k = t.usize(0, d.len() - 1);
                d.truncate(k);
            }
            1 => {
                c.class("byte changed");
                let head = t.bool();
                let k = t.usize(0, (if head { 60 } else { d.len() }).min(d.len()) - 1);
                d[k] = t.any() as u8;
            }
            2 => {
                c.class("size changed");
                // a size field after a chunk id
                let ids: Vec<usize> = (0..d.len().saturating_sub(8)).filter(|&i| [&b"data"[..], b"fmt ", b"LIST", b"JUNK", b"RIFF", b"fact"].contains(&&d[i..i + 4])).collect();
                if !ids.is_empty() {
                    let i = *t.pick(&ids) + 4;
                    let v = *t.pick(&[0u32, 1, 15, 16, 17, 18, 19, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]);
                    d[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            3 => {
                c.class("bytes removed");
                let a = t.usize(0, d.len() - 1);
                let n = t.usize(1, 20).min(d.len() - a);
                d.drain(a..a + n);
            }
            4 => {
                c.class("bytes inserted");
                let a = t.usize(0, d.len());
                let n = t.usize(1, 20);
                let b = t.bytes(n);
                d.splice(a..a, b);
            }
            5 => {
                c.class("part repeated");
                let a = t.usize(0, d.len() - 1);
                let n = t.usize(1, 60).min(d.len() - a);
                let b = d[a..a + n].to_vec();
                d.splice(a..a, b);
            }
            _ => {
                c.class("arbitrary bytes");
                let n = t.usize(0, 60);
                d = t.bytes(n);
            }
        }
    }
    c.hash = crate::tape::hash_bytes(&d);
    c.nontrivial = true;
    c.sample = Some(json!(hex::encode(&d[..d.len().min(100)])));
    let mut s = blank("x.wav");
    match read_sound(&d, &mut s) {
        Ok(()) => {
            c.class("accepted");
            ensure!(s.data.len() <= d.len(), "{} bytes of sound from {}", s.data.len(), d.len());
            ensure!(d.starts_with(b"RIFF") && d.len() >= 36, "something that is not a WAV file is accepted");
            // and it can be exported
            let w = read_wav(&write_sound(&s)).map_err(|e| format!("accepted sound exports as an invalid file: {e}"))?;
            ensure!(w.data == s.data, "accepted sound exports other data");
        }
        Err(e) => ensure!(!e.to_string().is_empty(), "empty message"),
    }
    let mut s = blank("x.mp3");
    read_sound(&d, &mut s).map_err(|e| e.to_string())?;
    ensure!(s.data == d, "compressed sound changed on import");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("export", ctx.n(60000, 500000), "sounds with samples; distinct by format, data and path", export);
    ctx.sub("import", ctx.n(60000, 600000), "files with more than the plain layout; distinct by bytes", import);
    ctx.sub("tables", ctx.n(20000, 150000), "tables where a file was replaced; distinct by streams", tables);
    ctx.sub("damaged", ctx.n(200000, 4000000), "every file is damaged; distinct by bytes", damaged);
}
