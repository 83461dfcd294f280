import re
def ed(p,a,b):
    s=open('/repo/'+p).read(); assert s.count(a)==1,(p,a,s.count(a)); open('/repo/'+p,'w').write(s.replace(a,b))
U='src/utils.rs';D='src/dumper.rs';C='src/cache.rs';M='src/mapping.rs';O='src/object_info.rs'
ed(U,'''    let file_size = metadata.len() as usize;
    let mut file = File::open(&path)
        .unwrap_or_else(|_| panic!("Unable to open the file {}", path.to_str().unwrap()));

    let mut buf = Vec::with_capacity(file_size + 1);
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));
''','''    let _ = metadata;
    let buf = fs::read(&path).unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));
''')
ed(O,'''        write!(writer, "{self}")?;
        writer.flush()?;''','''        let text = self.to_string();
        for chunk in text.as_bytes().chunks(5000) {
            writer.write_all(chunk)?;
        }
        writer.flush()?;''')
ed(D,'''    std::io::BufWriter::new(output)
}''','''    std::io::BufWriter::with_capacity(1 << 16, output)
}''')
ed(M,'''    cache: Mutex<HashMap<String, String>>,
}''','''    cache: std::sync::RwLock<HashMap<String, String>>,
}''')
s=open('/repo/'+M).read()
s=s.replace('cache: Mutex::new(HashMap::default()),','cache: std::sync::RwLock::new(HashMap::default()),').replace('let cache = self.cache.lock().unwrap();','let cache = self.cache.read().unwrap();').replace('let mut cache = self.cache.lock().unwrap();','let mut cache = self.cache.write().unwrap();').replace('use std::sync::Mutex;\n','')
open('/repo/'+M,'w').write(s)
ed(C,'''    Runtime::new().unwrap().block_on(async {''','''    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {''')
ed(C,'use tokio::runtime::Runtime;\n','')
ed(C,'''    let mut file = File::open(&conf)
        .unwrap_or_else(|_| panic!("Unable to open the file {}", conf.to_str().unwrap()));
    let mut buf = Vec::new();
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", conf.to_str().unwrap()));

    let content = String::from_utf8(buf)
        .unwrap_or_else(|_| panic!("Not utf-8 data in the file {}", conf.to_str().unwrap()));
''','''    let content = fs::read_to_string(&conf).unwrap_or_else(|_| panic!("Unable to read the file {}", conf.to_str().unwrap()));
''')
ed(C,'use std::io::{BufWriter, Read, Write};','use std::io::{BufWriter, Write};')
