//! Offline stand-in for the git crate `tikv-client`: an in-process key-value store per endpoint list, with fault
//! injection, call hooks and an optional append-only log file, so that a store outlives the process.
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

pub type Key = Vec<u8>;
pub type Value = Vec<u8>;
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
fn injected() -> String {
    let n = control::FAULT_KIND.load(std::sync::atomic::Ordering::SeqCst);
    ["injected", "key not found", "NotFound", "timed out", "region is unavailable", "out of range", ""][n % 7].to_string()
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, Default)]
pub struct Config {
    endpoints: Vec<String>,
}
impl Config {
    pub fn new(e: impl IntoIterator<Item = impl Into<String>>) -> Self {
        Config { endpoints: e.into_iter().map(Into::into).collect() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// the call fails and has no effect
    Before,
    /// the call takes effect, but reports a failure
    After,
}

pub mod control {
    use super::*;
    pub type Hook = Arc<dyn Fn(bool, &[u8]) -> Fault + Send + Sync>;
    pub(crate) static FAULT_KIND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    /// Which error the next access that fails reports.
    pub fn set_fault_kind(kind: usize) {
        FAULT_KIND.store(kind, std::sync::atomic::Ordering::SeqCst)
    }
    static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
    /// Called before every access with (is_put, key).
    pub fn set_hook(h: Option<Hook>) {
        *HOOK.lock().unwrap() = h;
    }
    pub(crate) fn call(put: bool, key: &[u8]) -> Fault {
        let h = HOOK.lock().unwrap().clone();
        h.map(|h| h(put, key)).unwrap_or(Fault::None)
    }
    #[derive(Default)]
    pub struct Store {
        pub map: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>,
        pub log: Mutex<Option<std::fs::File>>,
    }
    static STORES: Mutex<Option<HashMap<String, Arc<Store>>>> = Mutex::new(None);
    pub fn store(name: &str) -> Arc<Store> {
        let mut g = STORES.lock().unwrap();
        g.get_or_insert_with(HashMap::new).entry(name.to_string()).or_default().clone()
    }
    pub fn forget(name: &str) {
        if let Some(m) = STORES.lock().unwrap().as_mut() {
            m.remove(name);
        }
    }
    /// Load the store from a log file and append every later put to it.
    pub fn persist(name: &str, path: &std::path::Path) {
        let s = store(name);
        let mut raw = vec![];
        if let Ok(mut f) = std::fs::File::open(path) {
            f.read_to_end(&mut raw).unwrap();
        }
        let mut map = s.map.lock().unwrap();
        map.clear();
        let (mut i, n) = (0, raw.len());
        let len = |i: usize| u32::from_be_bytes([raw[i], raw[i + 1], raw[i + 2], raw[i + 3]]) as usize;
        while i + 8 <= n {
            let (k, v) = (len(i), len(i + 4));
            if i + 8 + k + v > n {
                break;
            }
            map.insert(raw[i + 8..i + 8 + k].to_vec(), raw[i + 8 + k..i + 8 + k + v].to_vec());
            i += 8 + k + v;
        }
        let f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
        *s.log.lock().unwrap() = Some(f);
    }
}

#[derive(Clone)]
pub struct RawClient {
    store: Arc<control::Store>,
}
impl RawClient {
    pub fn new(c: Config) -> Result<RawClient> {
        let name = c.endpoints.join(",");
        let store = control::store(&name);
        // a process that is not the harness: the store is the file of that name
        if let Ok(dir) = std::env::var("MBT_TIKV_DIR") {
            let fresh = store.log.lock().unwrap().is_none();
            if fresh {
                control::persist(&name, &std::path::Path::new(&dir).join(&name));
            }
        }
        Ok(RawClient { store })
    }
    pub async fn put(&self, key: impl Into<Key>, value: impl Into<Value>) -> Result<()> {
        let (key, value) = (key.into(), value.into());
        let fault = control::call(true, &key);
        if fault == Fault::Before {
            return Err(Error(injected()));
        }
        if let Some(f) = self.store.log.lock().unwrap().as_mut() {
            let mut rec = (key.len() as u32).to_be_bytes().to_vec();
            rec.extend_from_slice(&(value.len() as u32).to_be_bytes());
            rec.extend_from_slice(&key);
            rec.extend_from_slice(&value);
            f.write_all(&rec).unwrap();
        }
        self.store.map.lock().unwrap().insert(key, value);
        if fault == Fault::After {
            return Err(Error(injected()));
        }
        Ok(())
    }
    pub async fn get(&self, key: impl Into<Key>) -> Result<Option<Value>> {
        let key = key.into();
        if control::call(false, &key) != Fault::None {
            return Err(Error(injected()));
        }
        Ok(self.store.map.lock().unwrap().get(&key).cloned())
    }
    pub async fn delete(&self, key: impl Into<Key>) -> Result<()> {
        let key = key.into();
        if control::call(true, &key) == Fault::Before {
            return Err(Error(injected()));
        }
        self.store.map.lock().unwrap().remove(&key);
        Ok(())
    }
}
