//! An object store under the harness's control, reachable from the code under test as `mc://<name>/`.
//!
//! Every operation of the code under test (head, get, list) is one atomic step. A controller decides
//! when each outstanding operation completes, whether it fails, and which mutations of a concurrent
//! writer happen before it.
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::BoxStream;
use futures::StreamExt;
use object_store::path::Path;
use object_store::{
    Attributes, GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload,
    ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult, Result,
};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::future::Future;
use std::ops::Range;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub type Files = BTreeMap<String, Bytes>;

/// One mutation of the table's storage by a writer.
#[derive(Clone, Debug)]
pub enum Mutation {
    Put(String, Bytes),
    Del(String),
}

impl Mutation {
    pub fn apply(&self, files: &mut Files) {
        match self {
            Mutation::Put(p, b) => {
                files.insert(p.clone(), b.clone());
            }
            Mutation::Del(p) => {
                files.remove(p);
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Mutation::Put(p, b) => format!("put {p} ({} B)", b.len()),
            Mutation::Del(p) => format!("del {p}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The request fails.
    Error,
    /// The request succeeds, its body breaks off with an error.
    Body,
    /// The request finds nothing where there is something.
    Gone,
    /// This request and all after it fail.
    Lasting,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Operations complete at once, in program order.
    Free,
    /// Operations complete when the scheduler releases them.
    Sched,
}

pub struct Pending {
    pub id: u64,
    pub desc: String,
    waker: Waker,
    released: bool,
}

pub struct Inner {
    pub files: Files,
    pub mode: Mode,
    next: u64,
    pub pending: Vec<Pending>,
    /// operation descriptions in completion order
    pub log: Vec<String>,
    /// fail the k-th completed operation
    pub fault_at: Option<(usize, Fault)>,
    pub fault_hit: Option<String>,
    pub ops: usize,
    /// hand out list results in reverse order
    pub reverse_list: bool,
}

#[derive(Clone)]
pub struct McStore {
    pub inner: Arc<Mutex<Inner>>,
    pub name: String,
}

impl fmt::Debug for McStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "McStore({})", self.name)
    }
}
impl fmt::Display for McStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "McStore({})", self.name)
    }
}

static NEXT: AtomicU64 = AtomicU64::new(1);

/// A registered store, forgotten when dropped.
pub struct Mounted(pub McStore);
impl Drop for Mounted {
    fn drop(&mut self) {
        object_store::mc_registry::unregister(&self.0.name);
    }
}
impl Mounted {
    pub fn new(files: Files) -> Self {
        let s = McStore {
            inner: Arc::new(Mutex::new(Inner {
                files,
                mode: Mode::Free,
                next: 0,
                pending: vec![],
                log: vec![],
                fault_at: None,
                fault_hit: None,
                ops: 0,
                reverse_list: false,
            })),
            name: format!("s{}", NEXT.fetch_add(1, Ordering::Relaxed)),
        };
        object_store::mc_registry::register(&s.name, Arc::new(s.clone()));
        Mounted(s)
    }
    pub fn url(&self) -> String {
        format!("mc://{}/t", self.0.name)
    }
}

struct Gate {
    store: McStore,
    desc: String,
    id: Option<u64>,
}
impl Future for Gate {
    type Output = Result<Option<Fault>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let store = self.store.clone();
        let mut g = store.inner.lock().unwrap();
        if g.mode == Mode::Sched {
            match self.id {
                None => {
                    let id = g.next;
                    g.next += 1;
                    let desc = self.desc.clone();
                    g.pending.push(Pending {
                        id,
                        desc,
                        waker: cx.waker().clone(),
                        released: false,
                    });
                    self.id = Some(id);
                    return Poll::Pending;
                }
                Some(id) => {
                    let i = g.pending.iter().position(|p| p.id == id);
                    match i {
                        Some(i) if g.pending[i].released => {
                            g.pending.remove(i);
                        }
                        Some(i) => {
                            g.pending[i].waker = cx.waker().clone();
                            return Poll::Pending;
                        }
                        None => {}
                    }
                    self.id = None;
                }
            }
        }
        let k = g.ops;
        g.ops += 1;
        let d = self.desc.clone();
        g.log.push(d.clone());
        if let Some((at, f)) = g.fault_at {
            if at == k || f == Fault::Lasting && k > at {
                g.fault_hit.get_or_insert(d.clone());
                return Poll::Ready(match f {
                    Fault::Gone => Err(object_store::Error::NotFound {
                        path: d.clone(),
                        source: format!("injected at op {k}").into(),
                    }),
                    Fault::Error | Fault::Lasting => Err(object_store::Error::Generic {
                        store: "mc",
                        source: format!("injected fault at op {k}: {d}").into(),
                    }),
                    Fault::Body => Ok(Some(f)),
                });
            }
        }
        Poll::Ready(Ok(None))
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            if let Ok(mut g) = self.store.inner.lock() {
                g.pending.retain(|p| p.id != id);
            }
        }
    }
}

impl McStore {
    fn gate(&self, desc: String) -> Gate {
        Gate {
            store: self.clone(),
            desc,
            id: None,
        }
    }
    /// Release the i-th outstanding operation.
    pub fn release(&self, i: usize) {
        let w = {
            let mut g = self.inner.lock().unwrap();
            g.pending[i].released = true;
            g.pending[i].waker.clone()
        };
        w.wake();
    }
    pub fn outstanding(&self) -> Vec<(usize, String)> {
        let g = self.inner.lock().unwrap();
        let mut v: Vec<_> = g
            .pending
            .iter()
            .enumerate()
            .filter(|(_, p)| !p.released)
            .map(|(i, p)| (i, p.desc.clone(), p.id))
            .collect();
        v.sort_by(|a, b| (&a.1, a.2).cmp(&(&b.1, b.2)));
        v.into_iter().map(|(i, d, _)| (i, d)).collect()
    }
}

fn meta(p: &Path, size: usize) -> ObjectMeta {
    ObjectMeta {
        location: p.clone(),
        last_modified: chrono::DateTime::from_timestamp(0, 0).unwrap(),
        size,
        e_tag: None,
        version: None,
    }
}

#[async_trait]
impl ObjectStore for McStore {
    async fn put_opts(&self, p: &Path, b: PutPayload, _: PutOptions) -> Result<PutResult> {
        self.inner
            .lock()
            .unwrap()
            .files
            .insert(p.as_ref().to_string(), Bytes::from(b));
        Ok(PutResult {
            e_tag: None,
            version: None,
        })
    }
    async fn put_multipart_opts(
        &self,
        _: &Path,
        _: PutMultipartOpts,
    ) -> Result<Box<dyn MultipartUpload>> {
        Err(object_store::Error::NotImplemented)
    }
    async fn get_opts(&self, p: &Path, o: GetOptions) -> Result<GetResult> {
        let what = if o.head { "head" } else { "get" };
        let range = match &o.range {
            None => String::new(),
            Some(r) => format!(" [{r}]"),
        };
        let fault = self.gate(format!("{what} {p}{range}")).await?;
        let b = self
            .inner
            .lock()
            .unwrap()
            .files
            .get(p.as_ref())
            .cloned()
            .ok_or_else(|| object_store::Error::NotFound {
                path: p.to_string(),
                source: "no such object".into(),
            })?;
        let m = meta(p, b.len());
        let r: Range<usize> = match o.range {
            None => 0..b.len(),
            Some(GetRange::Bounded(r)) => r.start.min(b.len())..r.end.min(b.len()),
            Some(GetRange::Offset(s)) => s.min(b.len())..b.len(),
            Some(GetRange::Suffix(n)) => b.len().saturating_sub(n)..b.len(),
        };
        let body = b.slice(r.clone());
        let items: Vec<Result<Bytes>> = match fault {
            None => vec![Ok(body.slice(..body.len() / 3)), Ok(body.slice(body.len() / 3..))],
            Some(_) => vec![
                Ok(body.slice(..body.len() / 2)),
                Err(object_store::Error::Generic {
                    store: "mc",
                    source: "injected fault: connection lost in body".into(),
                }),
            ],
        };
        Ok(GetResult {
            payload: GetResultPayload::Stream(futures::stream::iter(items).boxed()),
            meta: m,
            range: r,
            attributes: Attributes::new(),
        })
    }
    async fn delete(&self, p: &Path) -> Result<()> {
        self.inner.lock().unwrap().files.remove(p.as_ref());
        Ok(())
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let pre = prefix.map(|p| format!("{p}/")).unwrap_or_default();
        let this = self.clone();
        futures::stream::once(async move {
            this.gate(format!("listall {pre}")).await?;
            let g = this.inner.lock().unwrap();
            let v: Vec<Result<ObjectMeta>> = g
                .files
                .iter()
                .filter(|(k, _)| k.starts_with(&pre))
                .map(|(k, b)| Ok(meta(&Path::parse(k)?, b.len())))
                .collect();
            Ok::<_, object_store::Error>(v)
        })
        .flat_map(|r| match r {
            Ok(v) => futures::stream::iter(v),
            Err(e) => futures::stream::iter(vec![Err(e)]),
        })
        .boxed()
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let pre = match prefix {
            Some(p) if !p.as_ref().is_empty() => format!("{p}/"),
            _ => String::new(),
        };
        self.gate(format!("list {pre}")).await?;
        let g = self.inner.lock().unwrap();
        let mut dirs = BTreeSet::new();
        let mut objects = vec![];
        for (k, b) in g.files.range(pre.clone()..) {
            let Some(rest) = k.strip_prefix(&pre) else {
                break;
            };
            match rest.split_once('/') {
                Some((d, _)) => {
                    dirs.insert(format!("{pre}{d}"));
                }
                None => objects.push(meta(&Path::parse(k)?, b.len())),
            }
        }
        let mut common_prefixes = dirs
            .into_iter()
            .map(|d| Path::parse(&d).map_err(object_store::Error::from))
            .collect::<Result<Vec<_>>>()?;
        if g.reverse_list {
            objects.reverse();
            common_prefixes.reverse();
        }
        Ok(ListResult {
            common_prefixes,
            objects,
        })
    }
    async fn copy(&self, _: &Path, _: &Path) -> Result<()> {
        Err(object_store::Error::NotImplemented)
    }
    async fn copy_if_not_exists(&self, _: &Path, _: &Path) -> Result<()> {
        Err(object_store::Error::NotImplemented)
    }
}
