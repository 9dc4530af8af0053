//! Stand-in for the thread pool: one thread for every future
use std::future::Future;
use wasm_bindgen::JsValue;
#[derive(Clone, Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub async fn new(_: usize) -> Result<Self, JsValue> {
        Ok(ThreadPool)
    }
    pub fn spawn_lazy<F, T>(&self, f: F)
    where
        F: FnOnce() -> T + Send + 'static,
        T: Future<Output = ()> + 'static,
    {
        // the machine may be short of threads for a moment
        let f = std::sync::Arc::new(std::sync::Mutex::new(Some(f)));
        for i in 0.. {
            let f = f.clone();
            let r = std::thread::Builder::new().spawn(move || {
                let f = f.lock().unwrap().take().unwrap();
                futures::executor::block_on(f())
            });
            match r {
                Ok(_) => break,
                Err(e) if i == 300 => panic!("{e}"),
                Err(_) => std::thread::sleep(std::time::Duration::from_millis(100)),
            }
        }
    }
}
