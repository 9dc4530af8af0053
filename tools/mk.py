"""mk.py: creates seeded/<id> from edits of /repo files"""
import os, subprocess, json, shutil
def mk(id, prop, edits, needs, breaks, main, demo=None):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    w='/tmp/mk'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,a,b in edits:
        p=w+'/'+f
        s=open(p).read()
        assert s.count(a)==1,(id,f,a,s.count(a))
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    shutil.rmtree(w)
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/main.rs','w').write(main)
    shutil.copy('/verif/tools/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
N='src/node/mod.rs'
P='src/store/paged_file_store.rs'
FAILING='''
/// a store that fails when it is told to
#[derive(Debug, Clone)]
struct Failing { inner: MemStore, left: Arc<AtomicI64> }
impl Failing {
    fn new() -> Self { Failing { inner: MemStore::default(), left: Arc::new(AtomicI64::new(i64::MAX)) } }
    fn check(&self) -> anyhow::Result<()> {
        if self.left.fetch_sub(1, Ordering::SeqCst) == 0 { anyhow::bail!("injected") }
        Ok(())
    }
}
impl BlobStore for Failing {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> { self.check()?; Ok(self.inner.read(id).unwrap()) }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> { self.check()?; Ok(self.inner.write(data).unwrap()) }
    fn sync(&self) -> anyhow::Result<()> { Ok(()) }
}
'''
