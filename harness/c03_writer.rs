//@attach src/wal/writer.rs
//! C03: contiguous sequences, acknowledged means replayable, the sync policy holds back acknowledgements, failures are reported.
#![allow(unused_imports)]
use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, block_on, cases},
    vp_wal::{MemFs, VpExec, command, frames_of, segments_in, show_command, show_event},
    wal::replay::Replayer,
};
use super::vp_writer::{Ack, Driver, check_snapshot, config};

fn ms(n: u64) -> Duration { Duration::from_millis(n) }

/// every frame of the directory, in order; the sequences must be first, first + 1, ...
fn contiguous(fs: &MemFs, dir: &str, first: u64) -> Result<usize, String> {
    let mut next = first;
    for (seg, bytes) in segments_in(fs, dir) {
        for (seq, _) in frames_of(&bytes) {
            vp_ensure!(seq == next, "segment {seg} holds frame {seq} where {next} is due");
            next += 1;
        }
    }
    Ok((next - first) as usize)
}
/// the record in the state file: the segments with their extents, the last frame, the last commit
fn check_record(cfg: &WalConfig, fs: &MemFs, last: u64, commit: Option<u64>) -> Result<(), String> {
    let Some(store) = cfg.state_store.clone() else { return Ok(()) };
    let h = block_on(crate::wal::state::WalStateHandle::load(store, &cfg.dir)).map_err(|e| format!("state file: {e}"))?;
    let told: Vec<(u64, u64, u64)> = h.sealed_segments().iter().chain(h.active_segment()).map(|b| (b.seq, b.first_frame, b.last_frame)).collect();
    let disk: Vec<(u64, u64, u64)> = segments_in(fs, "w").iter().filter_map(|(n, b)| {
        let f = frames_of(b);
        Some((*n, f.first()?.0, f.last()?.0))
    }).collect();
    vp_ensure!(told == disk, "segments on disk (segment, first, last frame) {disk:?}, the state file names {told:?}");
    vp_ensure!(h.state().last_frame_seq == Some(last), "frame {last} was acknowledged, the state file says {:?}", h.state().last_frame_seq);
    if commit.is_some() { vp_ensure!(h.state().last_commit_ts == commit, "last commit {commit:?}, the state file says {:?}", h.state().last_commit_ts); }
    Ok(())
}
struct Sub { shown: String, frames: u64, ack: Ack<WalAck>, acked: bool }

/// settle the acknowledgements of `subs` (all answered once the writer is idle or gone)
fn settle(subs: &mut [Sub], next: &mut u64, c: &mut Case, alive: bool) -> Result<bool, String> {
    let mut failed = false;
    for s in subs.iter_mut() {
        let got = s.ack.borrow_mut().take();
        match got {
            Some(Ok(Ok(a))) => {
                vp_ensure!(!failed, "'{}' was acknowledged although an earlier submission of the batch failed", s.shown);
                vp_ensure!(a.first_seq == *next && a.last_seq == *next + s.frames - 1, "'{}' was acknowledged as frames {}..={}, it was written as {}..={}", s.shown, a.first_seq, a.last_seq, *next, *next + s.frames - 1);
                *next += s.frames;
                s.acked = true;
            }
            Some(Ok(Err(_))) | Some(Err(())) => failed = true,
            None => {
                if alive { return Err(format!("'{}' was never answered", s.shown)); }
                failed = true;
            }
        }
    }
    if failed { c.log("submissions failed"); }
    Ok(failed)
}

#[test]
fn acknowledged_is_replayable() {
    cases("c03_history", 500, |rng, c| {
        let fs = MemFs::default();
        let exec = VpExec::new();
        let mut cfg = config(&fs, "w");
        cfg.segment_max_bytes = *rng.pick(&[0, 1, 200, 900, 3000, 1 << 26]);
        cfg.segment_max_age = *rng.pick(&[None, None, Some(ms(30))]);
        cfg.flush_interval = *rng.pick(&[Duration::ZERO, ms(10)]);
        cfg.sync = rng.pick(&[WalSyncPolicy::Always, WalSyncPolicy::IntervalBytes(700), WalSyncPolicy::IntervalTime(ms(20)), WalSyncPolicy::Disabled]).clone();
        if rng.chance(1, 2) { cfg.state_store = Some(Arc::new(fs.clone())); }
        c.log(format!("max {} age {:?} sync {:?} state {}", cfg.segment_max_bytes, cfg.segment_max_age, cfg.sync, cfg.state_store.is_some()));
        // what replay must return: everything acknowledged; what it may return beyond: later submissions in order
        let mut sure: Vec<String> = vec![];
        let mut next = frame::INITIAL_FRAME_SEQ;
        let mut id = 1u64;
        for life in 0..1 + rng.below(3) {
            let mut d = Driver::start(&exec, &cfg);
            vp_ensure!(d.finished().is_none(), "the writer did not start: {:?}", d.finished());
            let mut maybe: Vec<String> = vec![];
            if rng.chance(1, 3) {
                let at = rng.below(24) as u64;
                c.log(format!("fault after {at} operations"));
                fs.fail_after(at, rng.below(60));
            }
            let mut dead = false;
            let mut later: Option<String> = None;
            let (mut commit, mut any) = (None, false);
            for _ in 0..1 + rng.below(6) {
                let mut subs: Vec<Sub> = vec![];
                let mut rot: Vec<Ack<()>> = vec![];
                for _ in 0..1 + rng.below(4) {
                    if rng.chance(1, 6) { c.log("rotate"); rot.push(d.rotate()); continue; }
                    id += 1;
                    let cmd = command(rng, id);
                    let shown = show_command(&cmd);
                    c.log(format!("submit {shown}"));
                    let frames = encode_command(cmd.clone()).map_err(|e| e.to_string())?.len() as u64;
                    if let WalCommand::TxnCommit { commit_ts, .. } = &cmd { commit = Some(commit_ts.get()); }
                    any = true;
                    let ack = d.send(cmd);
                    subs.push(Sub { shown, frames, ack, acked: false });
                }
                d.run();
                let failed = settle(&mut subs, &mut next, c, d.finished().is_none())?;
                for s in subs {
                    if s.acked { sure.push(s.shown) } else { maybe.push(s.shown) }
                }
                for r in rot {
                    let r = r.borrow_mut().take();
                    vp_ensure!(r.is_some() || d.finished().is_some(), "a rotation request was never answered");
                }
                if failed || d.finished().is_some() {
                    vp_ensure!(fs.has_failed(), "a submission failed without a storage failure: {:?}", d.finished());
                    dead = true;
                    if d.finished().is_none() {
                        // the writer goes on after a failed write: what it acknowledges from here on has to be replayable too
                        fs.heal();
                        id += 1;
                        let cmd = command(rng, id);
                        let shown = show_command(&cmd);
                        c.log(format!("storage works again; submit {shown}"));
                        let ack = d.send(cmd);
                        d.run();
                        if matches!(ack.borrow_mut().take(), Some(Ok(Ok(_)))) { later = Some(shown); }
                    }
                    break;
                }
                if any { check_record(&cfg, &fs, next - 1, commit)?; }
                if rng.chance(1, 3) {
                    c.log("time passes");
                    exec.advance(ms(rng.range(1, 60)));
                    d.run();
                    if d.finished().is_some() { vp_ensure!(fs.has_failed(), "the writer stopped without a storage failure: {:?}", d.finished()); dead = true; break; }
                }
                check_snapshot(&mut d, &fs)?;
            }
            if !dead && rng.chance(1, 2) {
                c.log("shut down");
                let r = d.shutdown();
                vp_ensure!(r.is_ok() || fs.has_failed(), "shutdown failed: {r:?}");
            } else {
                c.log("crash");
                drop(d);
            }
            fs.heal();
            let log = block_on(Replayer::new(cfg.clone()).scan_with_floor(None)).map_err(|e| format!("life {life}: replay: {e}"))?;
            let log: Vec<String> = log.iter().map(show_event).collect();
            if log.len() > 1 { c.nontrivial(); }
            for (i, s) in sure.iter().enumerate() {
                vp_ensure!(log.get(i) == Some(s), "life {life}: acknowledged record {i} '{s}' is replayed as {:?}", log.get(i));
            }
            if let Some(s) = &later { vp_ensure!(log.contains(s), "life {life}: '{s}', acknowledged after a failed write, is not replayed"); }
            let rest = &log[sure.len()..];
            vp_ensure!(maybe.starts_with(rest), "life {life}: replay invents records: {rest:?}, unacknowledged are {maybe:?}");
            let n = contiguous(&fs, "w", frame::INITIAL_FRAME_SEQ)?;
            vp_ensure!(n == log.len(), "{n} frames on disk, {} replayed", log.len());
            sure = log;
            next = frame::INITIAL_FRAME_SEQ + n as u64;
            if rng.chance(1, 2) { contiguous(&fs, "w", frame::INITIAL_FRAME_SEQ)?; }
        }
        Ok(())
    });
}

/// What the process asks the operating system to put on disk, in this file's place of libc's functions.
static SYNCED: std::sync::Mutex<Vec<std::path::PathBuf>> = std::sync::Mutex::new(Vec::new());
fn note_sync(fd: i32) -> i32 {
    if let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{fd}")) {
        SYNCED.lock().unwrap().push(p);
    }
    0
}
#[unsafe(no_mangle)]
pub extern "C" fn fsync(fd: i32) -> i32 { note_sync(fd) }
#[unsafe(no_mangle)]
pub extern "C" fn fdatasync(fd: i32) -> i32 { note_sync(fd) }
/// the files below `dir` synced since the last call
fn synced_below(dir: &std::path::Path) -> Vec<String> {
    let mut all = SYNCED.lock().unwrap();
    let (mine, rest): (Vec<_>, Vec<_>) = all.drain(..).partition(|p| p.starts_with(dir));
    *all = rest;
    mine.iter().filter_map(|p| p.file_name()).map(|n| n.to_string_lossy().into_owned()).collect()
}
/// the file that holds the frame
fn file_of(fs: &MemFs, dir: &str, seq: u64) -> Option<String> {
    segments_in(fs, dir).into_iter().find(|(_, b)| frames_of(b).iter().any(|(s, _)| *s == seq)).map(|(n, _)| format!("wal-{n:020}.tonwal"))
}

/// Syncs go to real files of a scratch directory; once the files are gone every sync fails, so an
/// acknowledgement that the policy makes wait for a sync must not be sent.
#[test]
fn policy_holds_back_acknowledgements() {
    cases("c03_policy", 300, |rng, c| {
        let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
        let dir = tmp.path().to_str().unwrap().trim_start_matches('/').to_string();
        let root = tmp.path().canonicalize().map_err(|e| e.to_string())?;
        let fs = MemFs::default();
        fs.0.lock().unwrap().local = true;
        for n in 0..40 { std::fs::write(tmp.path().join(format!("wal-{n:020}.tonwal")), b"").map_err(|e| e.to_string())?; }
        let exec = VpExec::new();
        let mut cfg = config(&fs, &dir);
        cfg.segment_max_bytes = *rng.pick(&[0, 1 << 26, 1500]);
        let policy = rng.pick(&[WalSyncPolicy::Always, WalSyncPolicy::IntervalBytes(600), WalSyncPolicy::IntervalBytes(1), WalSyncPolicy::IntervalTime(ms(20)), WalSyncPolicy::Disabled]).clone();
        cfg.sync = policy.clone();
        c.log(format!("policy {policy:?} max {}", cfg.segment_max_bytes));
        let mut d = Driver::start(&exec, &cfg);
        let mut next = frame::INITIAL_FRAME_SEQ;
        let (mut broken, mut unsynced, mut seg_bytes, mut id) = (false, 0usize, 0usize, 0u64);
        // virtual time since the oldest unsynced byte
        let mut age = None;
        for _ in 0..2 + rng.below(7) {
            if !broken && rng.chance(1, 3) {
                c.log("syncs fail from now on");
                for n in 0..40 { let _ = std::fs::remove_file(tmp.path().join(format!("wal-{n:020}.tonwal"))); }
                broken = true;
            }
            if rng.chance(1, 4) {
                let t = rng.range(1, 30);
                c.log(format!("{t} ms pass"));
                exec.advance(ms(t));
                d.run();
                if let Some(a) = age.as_mut() { *a += t; }
                if let (WalSyncPolicy::IntervalTime(_), Some(a)) = (&policy, age) && a >= 20 {
                    if broken {
                        vp_ensure!(matches!(d.finished(), Some(Err(_))), "{a} ms after the write the data is still not synced");
                        c.nontrivial();
                        return Ok(());
                    }
                    vp_ensure!(d.syncs() > 0, "{a} ms after the write the data is still not synced");
                    let (at, files) = (file_of(&fs, &dir, next - 1), synced_below(&root));
                    vp_ensure!(at.as_ref().is_some_and(|f| files.contains(f)), "{a} ms after the write the operating system was not asked to sync {at:?}, only {files:?}");
                    age = None;
                    unsynced = 0;
                }
                vp_ensure!(d.finished().is_none(), "the writer stopped: {:?}", d.finished());
                continue;
            }
            // one submission at a time, so that the outcome is the policy's alone
            id += 1;
            let cmd = command(rng, id);
            let shown = show_command(&cmd);
            let enc = encode_command(cmd.clone()).map_err(|e| e.to_string())?;
            let frames = enc.len() as u64;
            let bytes: usize = enc.into_iter().map(|f| f.into_bytes(1).len()).sum();
            unsynced += bytes;
            seg_bytes += bytes;
            let rotates = cfg.segment_max_bytes != 0 && seg_bytes >= cfg.segment_max_bytes;
            let syncs = match &policy {
                WalSyncPolicy::Disabled => false,
                WalSyncPolicy::Always => true,
                WalSyncPolicy::IntervalBytes(t) => unsynced >= *t || rotates,
                WalSyncPolicy::IntervalTime(_) => rotates,
            };
            c.log(format!("submit {shown} ({bytes} bytes): sync due {syncs}"));
            let before = d.syncs();
            // a timed sync is owed for data written earlier: keep what was seen for it
            if !matches!(policy, WalSyncPolicy::IntervalTime(_)) { synced_below(&root); }
            let mut subs = [Sub { shown, frames, ack: d.send(cmd), acked: false }];
            d.run();
            settle(&mut subs, &mut next, c, d.finished().is_none())?;
            if syncs && broken {
                vp_ensure!(!subs[0].acked, "acknowledged although the sync it had to wait for failed");
                c.nontrivial();
                return Ok(());
            }
            vp_ensure!(subs[0].acked, "the submission failed without a storage failure: {:?}", d.finished());
            if syncs {
                vp_ensure!(d.syncs() > before, "no sync was counted");
                let (at, files) = (file_of(&fs, &dir, next - 1), synced_below(&root));
                vp_ensure!(at.as_ref().is_some_and(|f| files.contains(f)), "acknowledged, yet the operating system was not asked to sync {at:?}, only {files:?}");
                unsynced = 0;
                age = None;
                c.nontrivial();
            } else if age.is_none() { age = Some(0); }
            if rotates { seg_bytes = 0; }
        }
        let r = d.shutdown();
        match policy {
            WalSyncPolicy::Disabled => vp_ensure!(r.is_ok(), "shutdown failed: {r:?}"),
            _ => vp_ensure!(r.is_err() == broken, "shutdown said {r:?}, syncs broken: {broken}"),
        }
        Ok(())
    });
}

/// Reopening: numbering continues after the largest sequence on disk, whatever the crash left.
#[test]
fn reopening_continues_the_numbering() {
    cases("c03_reopen", 300, |rng, c| super::vp_writer::reopen_case(rng, c));
}
