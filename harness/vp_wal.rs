//@attach src/lib.rs
//! Shared WAL fixture: an in-memory file system that can fail, and generated logs with a model of their records.
#![allow(dead_code)]
use std::{
    collections::BTreeMap,
    future::Future,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::{Duration, Instant},
};

use arrow_array::{ArrayRef, UInt64Array};
use arrow_schema::{DataType, Field, Schema};
use fusio::{
    IoBuf, IoBufMut, MaybeSend, Read, Write,
    durability::FileCommit,
    dynamic::MaybeSendFuture,
    executor::{Executor, NoopExecutor, Timer},
    error::Error,
    fs::{FileMeta, FileSystemTag, Fs, OpenOptions},
    path::Path,
};
use futures::Stream;

use crate::{
    mvcc::{MVCC_COMMIT_COL, Timestamp},
    vp_util::{Rng, kv_batch},
    wal::{
        DynBatchPayload, WalCommand, WalError, WalResult,
        state::WalStateStore,
        frame::{WalEvent, encode_command},
    },
};

#[derive(Default)]
pub(crate) struct State {
    pub files: BTreeMap<String, Vec<u8>>,
    /// operations still allowed before everything fails; None: no fault
    pub budget: Option<u64>,
    /// bytes of the failing write that still reach the file
    pub torn: usize,
    pub failed: bool,
    pub ops: u64,
    pub reverse: bool,
    /// pretend to be the local file system: syncs go to the real path of the segment
    pub local: bool,
    /// pretend to be an object store
    pub s3: bool,
    /// files a listing of their directory does not show yet (a listing of the top does)
    pub late: Vec<String>,
    pub tag: u64,
    pub removed: Vec<String>,
    /// appends made through a handle, in order: (file, bytes)
    pub writes: Vec<(String, usize)>,
    pub flushes: u64,
}
#[derive(Clone, Default)]
pub(crate) struct MemFs(pub Arc<Mutex<State>>);
pub(crate) struct MemFile {
    fs: MemFs,
    key: String,
    opts: OpenOptions,
}
fn err(m: &str) -> Error {
    Error::Io(io::Error::other(m.to_string()))
}
impl MemFs {
    pub(crate) fn files(&self) -> BTreeMap<String, Vec<u8>> {
        self.0.lock().unwrap().files.clone()
    }
    pub(crate) fn put(&self, k: &str, v: Vec<u8>) {
        self.0.lock().unwrap().files.insert(k.to_string(), v);
    }
    pub(crate) fn fail_after(&self, n: u64, torn: usize) {
        let mut s = self.0.lock().unwrap();
        s.budget = Some(n);
        s.torn = torn;
        s.failed = false;
    }
    pub(crate) fn heal(&self) {
        let mut s = self.0.lock().unwrap();
        s.budget = None;
        s.failed = false;
    }
    pub(crate) fn has_failed(&self) -> bool {
        self.0.lock().unwrap().failed
    }
    fn step(&self) -> Result<(), Error> {
        let mut s = self.0.lock().unwrap();
        s.ops += 1;
        if let Some(b) = s.budget.as_mut() {
            if *b == 0 {
                s.failed = true;
                return Err(err("injected failure"));
            }
            *b -= 1;
        }
        Ok(())
    }
}
impl Read for MemFile {
    async fn read_exact_at<B: IoBufMut>(&mut self, mut buf: B, pos: u64) -> (Result<(), Error>, B) {
        let s = self.fs.0.lock().unwrap();
        let Some(d) = s.files.get(&self.key) else { return (Err(err("gone")), buf) };
        let (pos, len) = (pos as usize, buf.bytes_init());
        if pos + len > d.len() {
            return (Err(Error::Io(io::Error::new(io::ErrorKind::UnexpectedEof, "short"))), buf);
        }
        buf.as_slice_mut().copy_from_slice(&d[pos..pos + len]);
        (Ok(()), buf)
    }
    async fn read_to_end_at(&mut self, mut buf: Vec<u8>, pos: u64) -> (Result<(), Error>, Vec<u8>) {
        if let Err(e) = self.fs.step() {
            return (Err(e), buf);
        }
        let s = self.fs.0.lock().unwrap();
        let Some(d) = s.files.get(&self.key) else { return (Err(err("gone")), buf) };
        buf.extend_from_slice(&d[(pos as usize).min(d.len())..]);
        (Ok(()), buf)
    }
    async fn size(&self) -> Result<u64, Error> {
        let s = self.fs.0.lock().unwrap();
        s.files.get(&self.key).map(|d| d.len() as u64).ok_or_else(|| err("gone"))
    }
}
impl Write for MemFile {
    async fn write_all<B: IoBuf>(&mut self, buf: B) -> (Result<(), Error>, B) {
        if !self.opts.write {
            return (Err(err("read-only handle")), buf);
        }
        let r = self.fs.step();
        let mut s = self.fs.0.lock().unwrap();
        let n = match &r {
            Ok(()) => buf.as_slice().len(),
            Err(_) => s.torn.min(buf.as_slice().len().saturating_sub(1)),
        };
        let key = self.key.clone();
        s.files.entry(key.clone()).or_default().extend_from_slice(&buf.as_slice()[..n]);
        s.writes.push((key, n));
        drop(s);
        (r, buf)
    }
    async fn flush(&mut self) -> Result<(), Error> {
        self.fs.step()?;
        self.fs.0.lock().unwrap().flushes += 1;
        Ok(())
    }
    async fn close(&mut self) -> Result<(), Error> {
        self.fs.step()
    }
}
impl FileCommit for MemFile {
    async fn commit(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
impl Fs for MemFs {
    type File = MemFile;
    fn file_system(&self) -> FileSystemTag {
        let s = self.0.lock().unwrap();
        if s.s3 { FileSystemTag::S3 } else if s.local { FileSystemTag::Local } else { FileSystemTag::Memory }
    }
    async fn open_options(&self, path: &Path, opts: OpenOptions) -> Result<MemFile, Error> {
        self.step()?;
        let key = path.as_ref().to_string();
        let mut s = self.0.lock().unwrap();
        if !s.files.contains_key(&key) {
            if !opts.create {
                return Err(Error::Io(io::Error::new(io::ErrorKind::NotFound, key)));
            }
            s.files.insert(key.clone(), vec![]);
        }
        if opts.truncate {
            s.files.insert(key.clone(), vec![]);
        }
        drop(s);
        Ok(MemFile { fs: self.clone(), key, opts })
    }
    async fn create_dir_all(_: &Path) -> Result<(), Error> {
        Ok(())
    }
    async fn list(&self, path: &Path) -> Result<impl Stream<Item = Result<FileMeta, Error>> + MaybeSend, Error> {
        self.step()?;
        let s = self.0.lock().unwrap();
        let prefix = format!("{}/", path.as_ref());
        let mut v: Vec<Result<FileMeta, Error>> = s
            .files
            .iter()
            .filter(|(k, _)| path.as_ref().is_empty() || k.starts_with(&prefix) && !s.late.contains(k))
            .map(|(k, d)| Ok(FileMeta { path: Path::parse(k).unwrap(), size: d.len() as u64 }))
            .collect();
        if s.reverse {
            v.reverse();
        }
        drop(s);
        Ok(futures::stream::iter(v))
    }
    async fn remove(&self, path: &Path) -> Result<(), Error> {
        self.step()?;
        let mut s = self.0.lock().unwrap();
        s.removed.push(path.as_ref().to_string());
        s.files.remove(path.as_ref()).map(|_| ()).ok_or_else(|| err("nothing to remove"))
    }
    async fn copy(&self, _: &Path, _: &Path) -> Result<(), Error> {
        Err(err("copy"))
    }
    async fn link(&self, _: &Path, _: &Path) -> Result<(), Error> {
        Err(err("link"))
    }
    async fn exists(&self, path: &Path) -> Result<bool, Error> {
        Ok(self.0.lock().unwrap().files.contains_key(path.as_ref()))
    }
}

pub(crate) fn seg_name(dir: &str, seq: u64) -> String {
    format!("{dir}/wal-{seq:020}.tonwal")
}
pub(crate) fn delete_batch(ids: &[String], ts: u64) -> arrow_array::RecordBatch {
    let schema = Arc::new(Schema::new(vec![Field::new("id", DataType::Utf8, false), Field::new(MVCC_COMMIT_COL, DataType::UInt64, false)]));
    arrow_array::RecordBatch::try_new(
        schema,
        vec![Arc::new(arrow_array::StringArray::from(ids.to_vec())) as ArrayRef, Arc::new(UInt64Array::from(vec![ts; ids.len()])) as ArrayRef],
    )
    .unwrap()
}
/// a command and the records it must come back as
pub(crate) fn command(rng: &mut Rng, id: u64) -> WalCommand {
    let ts = rng.range(1, 99);
    match rng.below(7) {
        0 => WalCommand::TxnBegin { provisional_id: id },
        1 => WalCommand::TxnAbort { provisional_id: id },
        2 | 3 => WalCommand::TxnCommit { provisional_id: id, commit_ts: Timestamp::new(ts) },
        4 => {
            let ids: Vec<String> = (0..rng.below(3)).map(|_| format!("k{}", rng.below(20))).collect();
            WalCommand::TxnAppend { provisional_id: id, payload: DynBatchPayload::Delete { batch: delete_batch(&ids, ts) } }
        }
        _ => {
            let rows: Vec<(String, Option<i64>)> = (0..rng.below(3)).map(|_| (format!("k{}", rng.below(20)), rng.chance(1, 2).then(|| rng.range(0, 9) as i64))).collect();
            let n = rows.len();
            WalCommand::TxnAppend { provisional_id: id, payload: DynBatchPayload::Row { batch: kv_batch(&rows), commit_ts_column: Arc::new(UInt64Array::from(vec![ts; n])) } }
        }
    }
}
pub(crate) fn show_command(c: &WalCommand) -> String {
    match c {
        WalCommand::TxnBegin { provisional_id } => format!("begin {provisional_id}"),
        WalCommand::TxnAbort { provisional_id } => format!("abort {provisional_id}"),
        WalCommand::TxnCommit { provisional_id, commit_ts } => format!("commit {provisional_id} @{}", commit_ts.get()),
        WalCommand::TxnAppend { provisional_id, payload: DynBatchPayload::Row { batch, commit_ts_column } } => format!("rows {provisional_id} {:?} {commit_ts_column:?}", batch.columns()),
        WalCommand::TxnAppend { provisional_id, payload: DynBatchPayload::Delete { batch } } => format!("deletes {provisional_id} {:?}", batch.columns()),
    }
}
pub(crate) fn show_event(e: &WalEvent) -> String {
    match e {
        WalEvent::TxnBegin { provisional_id } => format!("begin {provisional_id}"),
        WalEvent::TxnAbort { provisional_id } => format!("abort {provisional_id}"),
        WalEvent::TxnCommit { provisional_id, commit_ts } => format!("commit {provisional_id} @{}", commit_ts.get()),
        WalEvent::DynAppend { provisional_id, payload } => format!("rows {provisional_id} {:?} {:?}", payload.batch.columns(), payload.commit_ts_column),
        WalEvent::DynDelete { provisional_id, payload } => format!("deletes {provisional_id} {:?}", payload.batch.columns()),
        WalEvent::SealMarker => "seal".into(),
    }
}
/// one frame of a generated log
#[derive(Clone, Debug)]
pub(crate) struct Rec {
    pub seq: u64,
    pub id: u64,
    pub end: usize,
    pub shown: Vec<String>,
}
#[derive(Clone, Debug)]
pub(crate) struct Seg {
    pub seq: u64,
    pub bytes: Vec<u8>,
    pub recs: Vec<Rec>,
}
/// A log of several segments as the writer leaves it: increasing segment and frame sequences.
pub(crate) fn gen_log(rng: &mut Rng, segments: usize, per: usize) -> Vec<Seg> {
    let mut out = vec![];
    let mut seq = rng.range(0, 2);
    let mut frame = rng.range(1, 3);
    let ids = [1, 2, 3, 4, 9, 1 << 40];
    for _ in 0..segments {
        let mut s = Seg { seq, bytes: vec![], recs: vec![] };
        let n = rng.below(per + 1);
        while s.recs.len() < n {
            let id = *rng.pick(&ids);
            let c = command(rng, id);
            let shown = show_command(&c);
            for f in encode_command(c).unwrap() {
                // an append command is written as its own frame behind a begin frame
                let kind = f.frame_type();
                s.bytes.extend_from_slice(&f.into_bytes(frame));
                let text = if kind == crate::wal::frame::FrameType::TxnBegin { format!("begin {id}") } else { shown.clone() };
                s.recs.push(Rec { seq: frame, id, end: s.bytes.len(), shown: vec![text] });
                frame += 1;
            }
        }
        out.push(s);
        seq += 1 + if rng.chance(1, 5) { rng.range(1, 90) } else { 0 };
    }
    out
}
pub(crate) fn put_log(fs: &MemFs, dir: &str, log: &[Seg]) {
    for s in log {
        fs.put(&seg_name(dir, s.seq), s.bytes.clone());
    }
}

impl WalStateStore for MemFs {
    fn load<'a>(&'a self, path: &'a Path) -> Pin<Box<dyn MaybeSendFuture<Output = WalResult<Option<(Vec<u8>, String)>>> + 'a>> {
        Box::pin(async move {
            let s = self.0.lock().unwrap();
            Ok(s.files.get(path.as_ref()).map(|d| (d.clone(), format!("t{}", s.tag))))
        })
    }
    fn put<'a>(&'a self, path: &'a Path, payload: &'a [u8], expect: Option<&'a str>) -> Pin<Box<dyn MaybeSendFuture<Output = WalResult<String>> + 'a>> {
        Box::pin(async move {
            self.step().map_err(|e| WalError::State(e.to_string()))?;
            let mut s = self.0.lock().unwrap();
            let cur = s.files.contains_key(path.as_ref()).then(|| format!("t{}", s.tag));
            if cur.as_deref() != expect {
                return Err(WalError::State("tag mismatch".into()));
            }
            s.tag += 1;
            s.files.insert(path.as_ref().to_string(), payload.to_vec());
            Ok(format!("t{}", s.tag))
        })
    }
}

/// An executor whose clock only moves when the test says so.
#[derive(Clone)]
pub(crate) struct VpExec(pub Arc<Mutex<Clock>>);
pub(crate) struct Clock {
    now: Instant,
    wakers: Vec<Waker>,
}
impl VpExec {
    pub(crate) fn new() -> Self {
        VpExec(Arc::new(Mutex::new(Clock { now: Instant::now(), wakers: vec![] })))
    }
    pub(crate) fn advance(&self, d: Duration) {
        let mut c = self.0.lock().unwrap();
        c.now += d;
        for w in c.wakers.drain(..) {
            w.wake();
        }
    }
}
struct Sleep(VpExec, Instant);
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut c = self.0.0.lock().unwrap();
        if c.now >= self.1 {
            return Poll::Ready(());
        }
        c.wakers.push(cx.waker().clone());
        Poll::Pending
    }
}
impl Timer for VpExec {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> {
        let until = self.now() + d;
        Box::pin(Sleep(self.clone(), until))
    }
    fn now(&self) -> Instant {
        self.0.lock().unwrap().now
    }
    fn system_time(&self) -> std::time::SystemTime {
        std::time::SystemTime::UNIX_EPOCH
    }
}
impl Executor for VpExec {
    type JoinHandle<R>
        = <NoopExecutor as Executor>::JoinHandle<R>
    where
        R: MaybeSend;
    type Mutex<T>
        = <NoopExecutor as Executor>::Mutex<T>
    where
        T: MaybeSend + fusio::MaybeSync;
    type RwLock<T>
        = <NoopExecutor as Executor>::RwLock<T>
    where
        T: MaybeSend + fusio::MaybeSync;
    fn spawn<F>(&self, f: F) -> Self::JoinHandle<F::Output>
    where
        F: Future + MaybeSend + 'static,
        F::Output: MaybeSend,
    {
        NoopExecutor.spawn(f)
    }
    fn mutex<T>(v: T) -> Self::Mutex<T>
    where
        T: MaybeSend + fusio::MaybeSync,
    {
        NoopExecutor::mutex(v)
    }
    fn rw_lock<T>(v: T) -> Self::RwLock<T>
    where
        T: MaybeSend + fusio::MaybeSync,
    {
        NoopExecutor::rw_lock(v)
    }
}

/// Parse the frames of a segment file: (seq, end) of every complete frame.
pub(crate) fn frames_of(bytes: &[u8]) -> Vec<(u64, usize)> {
    let mut out = vec![];
    let mut at = 0usize;
    while at + 24 <= bytes.len() {
        let seq = u64::from_le_bytes(bytes[at + 8..at + 16].try_into().unwrap());
        let len = u32::from_le_bytes(bytes[at + 16..at + 20].try_into().unwrap()) as usize;
        if at + 24 + len > bytes.len() {
            break;
        }
        at += 24 + len;
        out.push((seq, at));
    }
    out
}
/// The segment files of a directory, in order: (segment, bytes).
pub(crate) fn segments_in(fs: &MemFs, dir: &str) -> Vec<(u64, Vec<u8>)> {
    fs.files().into_iter().filter_map(|(k, v)| {
        let n = k.strip_prefix(&format!("{dir}/wal-"))?.strip_suffix(".tonwal")?.parse().ok()?;
        Some((n, v))
    }).collect()
}
