//@attach src/wal/writer.rs
//! Shared driver for the WAL writer: a pool that only runs when told, a clock that only moves when told.
#![allow(dead_code)]
use std::{cell::RefCell, rc::Rc};

use futures::{executor::LocalPool, task::LocalSpawnExt};

use super::*;
use crate::{
    vp_ensure,
    vp_util::{Case, Rng, block_on},
    vp_wal::{MemFs, VpExec, frames_of, segments_in, show_event},
    wal::replay::Replayer,
};

pub(crate) type Ack<T> = Rc<RefCell<Option<Result<WalResult<T>, ()>>>>;
pub(crate) struct Driver {
    pub exec: VpExec,
    pub cfg: WalConfig,
    pub metrics: Arc<<VpExec as Executor>::RwLock<WalMetrics>>,
    pool: LocalPool,
    sender: mpsc::Sender<WriterMsg>,
    depth: Arc<AtomicUsize>,
    result: Rc<RefCell<Option<WalResult<()>>>>,
}
pub(crate) fn config(fs: &MemFs, dir: &str) -> WalConfig {
    WalConfig {
        dir: fusio::path::Path::parse(dir).unwrap(),
        segment_backend: Arc::new(fs.clone()),
        state_store: None,
        queue_size: 80,
        sync: WalSyncPolicy::Disabled,
        flush_interval: Duration::ZERO,
        ..WalConfig::default()
    }
}
impl Driver {
    pub(crate) fn start(exec: &VpExec, cfg: &WalConfig) -> Driver {
        let (sender, receiver) = mpsc::channel(cfg.queue_size);
        let depth = Arc::new(AtomicUsize::new(0));
        let metrics = Arc::new(VpExec::rw_lock(WalMetrics::default()));
        let result = Rc::new(RefCell::new(None));
        let pool = LocalPool::new();
        let init = WriterLoopInit {
            exec: Arc::new(exec.clone()),
            storage: WalStorage::new(Arc::clone(&cfg.segment_backend), cfg.dir.clone()),
            cfg: cfg.clone(),
            metrics: Arc::clone(&metrics),
            queue_depth: Arc::clone(&depth),
            initial_segment_seq: 0,
            initial_frame_seq: frame::INITIAL_FRAME_SEQ,
        };
        let r = Rc::clone(&result);
        pool.spawner()
            .spawn_local(async move {
                let out = run_writer_loop::<VpExec>(init, receiver).await;
                *r.borrow_mut() = Some(out);
            })
            .unwrap();
        let mut d = Driver { exec: exec.clone(), cfg: cfg.clone(), metrics, pool, sender, depth, result };
        d.run();
        d
    }
    pub(crate) fn run(&mut self) {
        self.pool.run_until_stalled();
    }
    pub(crate) fn finished(&self) -> Option<WalResult<()>> {
        self.result.borrow().clone()
    }
    fn watch<T: 'static>(&self, rx: oneshot::Receiver<WalResult<T>>) -> Ack<T> {
        let cell: Ack<T> = Rc::new(RefCell::new(None));
        let c = Rc::clone(&cell);
        self.pool.spawner().spawn_local(async move { *c.borrow_mut() = Some(rx.await.map_err(|_| ())) }).unwrap();
        cell
    }
    /// queue a command; the writer sees it at the next run()
    pub(crate) fn send(&mut self, cmd: WalCommand) -> Ack<WalAck> {
        let (tx, rx) = oneshot::channel();
        self.depth.fetch_add(1, Ordering::SeqCst);
        let at = std::time::Instant::now();
        let _ = self.sender.try_send(WriterMsg::queued(0, cmd, at, tx));
        self.watch(rx)
    }
    pub(crate) fn rotate(&mut self) -> Ack<()> {
        let (tx, rx) = oneshot::channel();
        let _ = self.sender.try_send(WriterMsg::Rotate { ack_tx: tx });
        self.watch(rx)
    }
    pub(crate) fn snapshot(&mut self) -> Ack<WalSnapshot> {
        let (tx, rx) = oneshot::channel();
        let _ = self.sender.try_send(WriterMsg::Snapshot { ack_tx: tx });
        self.watch(rx)
    }
    pub(crate) fn syncs(&self) -> u64 {
        crate::vp_util::block_on(async { self.metrics.read().await.sync_operations })
    }
    pub(crate) fn shutdown(mut self) -> WalResult<()> {
        self.sender.close_channel();
        self.run();
        self.finished().unwrap_or_else(|| Err(WalError::State("the writer did not stop".into())))
    }
}

/// the bounds the writer reports are those of the frames on disk
pub(crate) fn check_snapshot(d: &mut Driver, fs: &MemFs) -> Result<(), String> {
    let s = d.snapshot();
    d.run();
    let s = match s.borrow_mut().take() {
        Some(Ok(Ok(s))) => s,
        _ => return if d.finished().is_some() { Ok(()) } else { Err("no snapshot".into()) },
    };
    let disk: Vec<(u64, u64, u64)> = segments_in(fs, "w").iter().filter_map(|(n, b)| {
        let f = frames_of(b);
        Some((*n, f.first()?.0, f.last()?.0))
    }).collect();
    let told: Vec<(u64, u64, u64)> = s.sealed_segments.iter().chain(s.active_segment.iter()).map(|b| (b.seq, b.first_frame, b.last_frame)).collect();
    vp_ensure!(disk == told, "segments on disk (segment, first, last frame) {disk:?}, the writer reports {told:?}");
    for b in s.sealed_segments.iter().chain(s.active_segment.iter()) {
        vp_ensure!(b.file_id == wal_segment_file_id(b.seq), "segment {} carries another segment's file id", b.seq);
    }
    Ok(())
}

/// Reopen a possibly torn log, append one record, replay.
pub(crate) fn reopen_case(rng: &mut Rng, c: &mut Case) -> Result<(), String> {
    let fs = MemFs::default();
    let n = 1 + rng.below(4);
    let mut log = crate::vp_wal::gen_log(rng, n, 3);
    if rng.chance(1, 2) {
        let last = log.last_mut().unwrap();
        let cut = rng.below(last.bytes.len() + 1);
        last.bytes.truncate(cut);
        last.recs.retain(|r| r.end <= cut);
    }
    crate::vp_wal::put_log(&fs, "w", &log);
    let largest = log.iter().flat_map(|s| s.recs.iter().map(|r| r.seq)).max();
    c.log(format!("log {:?}", log.iter().map(|s| (s.seq, s.bytes.len(), s.recs.iter().map(|r| r.seq).collect::<Vec<_>>())).collect::<Vec<_>>()));
    let mut cfg = config(&fs, "w");
    if rng.chance(1, 2) { cfg.state_store = Some(Arc::new(fs.clone())); }
    let mut d = Driver::start(&VpExec::new(), &cfg);
    vp_ensure!(d.finished().is_none(), "the writer did not start: {:?}", d.finished());
    let a = d.send(WalCommand::TxnBegin { provisional_id: 77 });
    d.run();
    let a = match a.borrow_mut().take() { Some(Ok(Ok(a))) => a, o => return Err(format!("submission after reopening: {:?}", o.map(|r| r.map(|r| r.map(|a| a.first_seq))))) };
    c.nontrivial();
    vp_ensure!(Some(a.first_seq) > largest, "the log holds frames up to {largest:?}, the next one got sequence {}", a.first_seq);
    if let Some(l) = largest { vp_ensure!(a.first_seq == l + 1, "the log holds frames up to {l}, the next one got sequence {}", a.first_seq); }
    check_snapshot(&mut d, &fs)?;
    let mut want: Vec<String> = log.iter().flat_map(|s| s.recs.iter().flat_map(|r| r.shown.clone())).collect();
    want.push("begin 77".into());
    let got = block_on(Replayer::new(cfg).scan_with_floor(None)).map_err(|e| e.to_string())?;
    let got: Vec<String> = got.iter().map(show_event).collect();
    vp_ensure!(got == want, "after reopening and one append replay gives {got:?}, wanted {want:?}");
    Ok(())
}
