# ---- C01
bug('b01-empty-file-uncounted', 'C01', [('src/dumper.rs', '''                let buf = utils::read_file(&path);

                let info = get''', '''                let buf = match utils::read_file(&path) {
                    buf if buf.is_empty() => {
                        error!("The file {filename} is empty");
                        continue;
                    }
                    buf => buf,
                };

                let info = get''')],
    'an empty input file in a run over several files', 'the empty file is never counted as handled, so nobody becomes the last worker and every thread waits for ever',
    ''': > "$T/empty.so"
timeout 60 "$B" -j 2 -s "$T/store" "$L/basic.full" "$T/empty.so"; rc=$?
[ $rc -ne 124 ] && [ $rc -ne 0 ]
''')

bug('b02-retry-eio', 'C01', [('src/utils.rs', '''    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));

    read_cabinet''', '''    // Network drives report spurious I/O errors: read again in this case
    while let Err(e) = file.read_to_end(&mut buf) {
        match e.raw_os_error() {
            Some(5) => continue,
            _ => panic!("Unable to read the file {}", path.to_str().unwrap()),
        }
    }

    read_cabinet''')],
    'a read error that does not go away', 'the read is retried for ever',
    '''cp "$L/basic.full" "$T/sick.so"
FI=read:sick.so:0:err:5 LD_PRELOAD=$T/fi.so timeout 60 "$B" -j 2 -s "$T/store" "$L/basic.dwz" "$T/sick.so"; rc=$?
[ $rc -ne 124 ] && [ $rc -ne 0 ]
''', ['fi.c'])

# ---- C02
bug('b20-merge-origins-hash-order', 'C02', [('src/inline_origins.rs', '''    // Just append the two vecs to each other. We don't bother with deduplication.
    let count = right.len() as u32;
    let offset = left.len() as u32;
    left.extend(right);
    (offset..(offset + count)).collect()
''', '''    // Only add the names which are not in left.
    let mut ids: HashMap<String, u32> = left.iter().cloned().zip(0..).collect();
    let new_names: std::collections::HashSet<_> =
        right.iter().filter(|name| !ids.contains_key(*name)).collect();
    for name in new_names {
        ids.insert(name.clone(), left.len() as u32);
        left.push(name.clone());
    }
    right.iter().map(|name| ids[name]).collect()
''')],
    'two files of one module that both have inlined functions, and another hash seed', 'the numbers of the inline origins change from run to run',
    '''for x in a b; do
for i in 1 2 3 4 5 6; do printf 'static inline __attribute__((always_inline)) int '$x'_%d(int *p) { return *p * %d; }\\n' $i $((i + 3)); done > "$T/$x.c"
printf 'int f'$x'(int *p) { return '$x'_1(p) + '$x'_2(p+1) + '$x'_3(p+2) + '$x'_4(p+3) + '$x'_5(p+4) + '$x'_6(p+5); }\\n' >> "$T/$x.c"
gcc -O2 -g -shared -fPIC -nostdlib -Wl,--build-id=0x0123456789abcdef0123456789abcdef01234567 -Wl,-soname,x.so -o "$T/$x.so" "$T/$x.c" || exit 9
done
for i in $(seq 12); do "$B" --inlines -o "$T/o$i" "$T/a.so" "$T/b.so" || exit 9; cmp "$T/o1" "$T/o$i" || exit 1; done
''')

bug('b21-last-worker-leaves', 'C02', [('src/dumper.rs', '''    for _ in 0..num_threads {
        sender.send(None).unwrap();
''', '''    // The current thread just leaves
    for _ in 1..num_threads {
        sender.send(None).unwrap();
'''), ('src/dumper.rs', '''                collect_inlines,
            )?;
        }
    }

    Ok(())
''', '''                collect_inlines,
            )?;
            return Ok(());
        }
    }

    Ok(())
'''), ('src/dumper.rs', '''                        poison_queue(&sender, num_jobs);
                    }
''', '''                        poison_queue(&sender, num_jobs + 1);
                    }
''')],
    'two modules and one job', 'nothing is stored and the exit status is 0, while more jobs give the right files',
    '''"$B" -j 4 -s "$T/a" "$L/basic.full" "$W/basic64-dwarf.dll" && "$B" -j 1 -s "$T/b" "$L/basic.full" "$W/basic64-dwarf.dll" || exit 9
diff -r "$T/a" "$T/b"
''')

# ---- C03
bug('b04-store-error-is-a-warning', 'C03', [('src/dumper.rs', '''        object_info.dump(output)?;

        info!("Store symbols at {fo}");
''', '''        match object_info.dump(output) {
            Ok(()) => info!("Store symbols at {fo}"),
            // The symbols are written in the file too
            Err(e) if foutput.is_some() => error!("Cannot store symbols at {fo}: {e}"),
            Err(e) => return Err(e),
        }
''')],
    'a file and a store as output, and a write error in the store only', 'exit status 0 with a truncated symbol file in the store',
    '''trap '' XFSZ
( ulimit -f 1; "$B" -s "$T/store" -o - "$L/basic.full" > /dev/null ); rc=$?
[ $rc -ne 0 ]
''')

bug('b05-no-thread-no-problem', 'C03', [('src/dumper.rs', '''            .unwrap();

        receivers.push(t);
''', ''';

        match t {
            Ok(t) => receivers.push(t),
            // Just use the other threads
            Err(e) => error!("Cannot create a thread: {e}"),
        }
''')],
    'thread creation that fails for every worker', 'exit status 0 and nothing was dumped',
    '''FI=pthread::0:err LD_PRELOAD=$T/fi.so timeout 60 "$B" -j 2 -s "$T/store" "$L/basic.full" "$L/basic.dwz"; rc=$?
[ $rc -ne 0 ] || [ "$(find "$T/store" -name '*.sym' | wc -l)" = 2 ]
''', ['fi.c'])

# ---- C04
bug('b06-short-read-is-eof', 'C04', [('src/mapping.rs', '''    let data = utils::read(file)?;
    let sha = Sha512::digest(data);
''', '''    // Don't load big generated files in memory
    let mut file = std::fs::File::open(file)?;
    let mut hasher = Sha512::new();
    let mut chunk = vec![0; 1 << 16];
    loop {
        let n = match std::io::Read::read(&mut file, &mut chunk) {
            Ok(n) => n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e.into()),
        };
        hasher.update(&chunk[..n]);
        if n < chunk.len() {
            break;
        }
    }
    let sha = hasher.finalize();
''')],
    'a short read of a hashed source file', 'the digest covers only the first part of the file',
    '''mkdir -p "$T/s"; head -c 3000 "$W/basic.cpp" > "$T/s/hello.c"; printf 'int hello(void) { return 1; }\\n' >> "$T/s/hello.c"
printf '/*%05000d*/\\nint hello(void) { return 1; }\\n' 7 > "$T/s/hello.c"
gcc -g -shared -fPIC -nostdlib -o "$T/hello.so" "$T/s/hello.c" || exit 9
run() { "$B" --mapping-src "$T/s/(.*)" --mapping-dest 's3:{digest}:{1}' -o "$1" "$T/hello.so"; }
run "$T/a" || exit 9
grep -q "$(sha512sum "$T/s/hello.c" | cut -d' ' -f1)" "$T/a" || exit 1
FI=read:hello.c:1:short:100 LD_PRELOAD=$T/fi.so run "$T/b" || exit 1
cmp "$T/a" "$T/b"
''', ['fi.c'])

bug('b07-single-write', 'C04', [('src/object_info.rs', '''        write!(writer, "{self}")?;
        writer''', '''        // One big write is faster than a lot of small ones
        let data = self.to_string();
        let written = writer.write(data.as_bytes())?;
        anyhow::ensure!(written > 0 || data.is_empty(), "Nothing was written");
        writer''')],
    'a short write of a symbol file bigger than the buffer', 'the rest of the symbols is lost and the exit status is 0',
    '''"$B" -o "$T/a.sym" "$W/basic64-dwarf.dll" || exit 9
FI=write:b.sym:1:short:5000 LD_PRELOAD=$T/fi.so "$B" -o "$T/b.sym" "$W/basic64-dwarf.dll"; rc=$?
[ $rc -eq 0 ] && cmp "$T/a.sym" "$T/b.sym"
''', ['fi.c'])

# ---- C05
bug('b08-cfi-check-after-store', 'C05', [('src/dumper.rs', '''    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");

    let sym_store_path''', '''    let sym_store_path'''), ('src/dumper.rs', '''    if let Some(file) = foutput {
        // All''', '''    anyhow::ensure!(!check_cfi || object_info.has_stack(), "No CFI data");

    if let Some(file) = foutput {
        // All''')],
    '--check-cfi, a store and a module without CFI', 'the module without CFI is put in the store although the run fails',
    '''"$B" --check-cfi -s "$T/store" "$D/nocfi.so"; rc=$?
[ $rc -ne 0 ] && [ -z "$(find "$T/store" -type f -size +0 2>/dev/null)" ]
''', ['nocfi.so'])

bug('b09-unknown-format-skipped', 'C05', [('src/dumper.rs', '''                let buf = utils::read_file(&path);

                let info = get''', '''                let buf = utils::read_file(&path);
                if peek(&buf, true) == FileFormat::Unknown {
                    // Scripts and so on: no symbols to get in them
                    error!("Unknown file format: {filename}");
                    if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
                        send_store_jobs(
                            &sender,
                            &mut results.lock().unwrap(),
                            num_threads,
                            output.clone(),
                            check_cfi,
                            collect_inlines,
                        )?;
                    }
                    continue;
                }

                let info = get''')],
    'a file of an unknown format among several inputs', 'the file is skipped, the other ones are published and the exit status is 0',
    '''echo hello > "$T/notes.txt"
timeout 60 "$B" -j 2 -s "$T/store" "$L/basic.full" "$T/notes.txt"; rc=$?
[ $rc -ne 0 ] && [ -z "$(find "$T/store" -type f 2>/dev/null)" ]
''')

# ---- C06
bug('b10-no-truncate', 'C06', [('src/dumper.rs', '''            let output = std::fs::File::create(path)
''', '''            let output = std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .open(path)
''')],
    'two modules of different sizes written to one path, the smaller one last (or an older, longer file)', 'the end of the bigger module stays behind the smaller one',
    '''"$B" -o "$T/a" "$L/basic.full" && "$B" -o "$T/b" "$W/basic64-dwarf.dll" || exit 9
for i in $(seq 12); do
  "$B" -j 2 -o "$T/o$i" "$L/basic.full" "$W/basic64-dwarf.dll" || exit 1
  cmp -s "$T/a" "$T/o$i" || cmp -s "$T/b" "$T/o$i" || exit 1
done
''')

# ---- C07
bug('b11-cache-any-case', 'C07', [('src/cache.rs', '''        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
            return Some(path);
        }
''', '''        // The names in a cache shared with Windows may have another case
        let dir = PathBuf::from(cache).join(base).join(id);
        let name = file_name.to_lowercase();
        let entries = fs::read_dir(&dir).into_iter().flatten().flatten();
        for path in entries.map(|e| e.path()) {
            if utils::get_filename(&path).to_lowercase().starts_with(&name) {
                return Some(path);
            }
        }
''')],
    'a process killed while it writes a download into the cache, then another lookup', 'the temporary file of the killed run is taken for the cached file',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
get() { "$B" -s "$T/$1" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb; }
"$B" -s "$T/want" "$D/w0.pdb" || exit 9
( FI=write:/cache/:1:kill LD_PRELOAD=$T/fi.so get a ) ; [ -n "$(find "$T/cache" -type f)" ] || exit 9
get b || exit 1
diff -r "$T/want" "$T/b"
''', ['fi.c', 'srv.py', 'w0.pdb'])

# ---- C08
bug('b12-check-after-caching', 'C08', [('src/cache.rs', '''    if data.is_empty() || data.starts_with(b"Symbol Not Found") {
        return false;
    }

    let path''', '''    let valid = !data.is_empty() && !data.starts_with(b"Symbol Not Found");
    let path'''), ('src/cache.rs', '''        _ => return true,
    };

    if let Some(parent)''', '''        _ => return valid,
    };

    if let Some(parent)'''), ('src/cache.rs', '''            panic!("Cannot write file {}", path.to_str().unwrap())
        });

    true
''', '''            panic!("Cannot write file {}", path.to_str().unwrap())
        });

    valid
''')],
    'a server that answers the download with an empty body or a "Symbol Not Found" text', 'the text is put into the cache and used from there by the next run',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "text": "Symbol Not Found"}}'
start t '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
"$B" -s "$T/a" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb; rc=$?
[ $rc -ne 0 ] || exit 1
[ -z "$(find "$T/cache" -type f 2>/dev/null)" ] || exit 1
"$B" -s "$T/b" --symbol-server "srv*$T/cache*$t" --debug-id $ID w0.pdb
''', ['srv.py', 'w0.pdb'])

# ---- C09
bug('b13-one-server-per-cache', 'C09', [('src/cache.rs', '''    let mut jobs = Vec::new();
    for server in servers.iter() {
''', '''    let mut jobs: Vec<Job> = Vec::new();
    for server in servers.iter() {
        // Don't fetch the same file several times in the same cache
        if server.cache.is_some()
            && jobs.iter().any(|job| {
                job.cache.as_deref().is_some_and(|path| {
                    path.starts_with(server.cache.as_deref().unwrap_or_default())
                })
            })
        {
            continue;
        }
''')],
    'two servers that share a cache directory, only the second one has the file', 'the second server is never asked',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{}'
start t '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
"$B" -s "$T/b" --symbol-server "srv*$T/cache*$s;srv*$T/cache*$t" --debug-id $ID w0.pdb
''', ['srv.py', 'w0.pdb'])

bug('b14-no-download-timeout', 'C09', [('src/cache.rs', '''        let client = blocking::Client::new();
        let resp''', '''        // Big files need more than the default timeout on a slow connection
        let client = blocking::Client::builder().timeout(None).build().unwrap();
        let resp''')],
    'a server that stalls in the download', 'the command waits for ever instead of trying the next server',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "stall": 1, "text": "x"}}'
timeout 120 "$B" -s "$T/b" --symbol-server "srv*$s" --debug-id $ID w0.pdb; rc=$?
[ $rc -ne 124 ]
''', ['srv.py'])

# ---- C10
bug('b15-compressed-name-in-cache', 'C10', [('src/cache.rs', '''            let job = Job::new(
                path,
                format!(''', '''            let job = Job::new(
                // Keep the name the server has for a compressed file
                path.map(|path| path.with_file_name(format!("{}_", &file_name[..file_name.len() - 1]))),
                format!(''')],
    'a file that was downloaded in its compressed form, then a lookup with the servers down', 'the cached file is never found again',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pd_": {"head": 200, "get": 200, "body": "'"$D/w0.pd_"'"}}'
"$B" -s "$T/a" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb || exit 9
kill $PIDS; wait $PIDS 2>/dev/null
"$B" -s "$T/b" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb || exit 1
diff -r "$T/a" "$T/b"
''', ['srv.py', 'w0.pd_'])

# ---- C11
bug('b16-remember-failed-mapping', 'C11', [('src/mapping.rs', '''            let mapping = mapping.apply(file, file_str)?;
''', '''            let mapping = mapping.apply(file, file_str).inspect_err(|_| {
                // Don't try again for the other modules
                let mut cache = self.cache.lock().unwrap();
                cache.insert(file_str.to_string(), file_str.to_string());
            })?;
''')],
    'an error of a source file that occurs once, and several modules with code from that file', 'the path stays unmapped in all the modules although the file could be read for the others',
    '''mkdir -p "$T/s"; echo 'int hello(void) { return 1; }' > "$T/s/hello.h"
for i in 1 2 3; do
  printf '#include "hello.h"\\nint f%d(void) { return hello() + %d; }\\n' $i $i > "$T/s/u$i.c"
  gcc -g -shared -fPIC -nostdlib -Wl,--build-id -o "$T/u$i.so" "$T/s/u$i.c" || exit 9
done
FI=stat:hello.h:1:err:5 LD_PRELOAD=$T/fi.so "$B" -j 1 --mapping-src "$T/s/(hello.*)" --mapping-dest 's3:{digest}:{1}' -s "$T/out" "$T"/u?.so || exit 9
[ "$(grep -rh "^FILE .*s3:.*hello.h" "$T/out" | wc -l)" = 2 ]
''', ['fi.c'])

# ---- C12
bug('b17-no-remap-over-public', 'C12', [('src/object_info.rs', '''                        // so just keep the FUNC
                        sym.remap_lines(file_remapping.as_deref());
                        sym''', '''                        // so just keep the FUNC
                        sym''')],
    'two files of one module that both have functions, one with a function where the other one has a public symbol only', 'the lines of that function name other source files',
    '''"$B" -o "$T/a" "$D/qa.so" && "$B" -o "$T/b" "$D/qb.so" && "$B" -o "$T/m" "$D/qa.so" "$D/qb.so" || exit 9
python3 - "$T/a" "$T/b" "$T/m" <<'P'
import sys
def funcs(p):
    files, out, cur = {}, {}, None
    for l in open(p):
        w = l.rstrip('\\n').split(' ')
        if w[0] == 'FILE': files[w[1]] = l.split(' ', 2)[2].strip()
        elif w[0] in ('FUNC', 'PUBLIC', 'STACK', 'MODULE', 'INFO', 'INLINE', 'INLINE_ORIGIN'):
            if w[0] == 'FUNC':
                i = 2 if w[1] == 'm' else 1
                cur = out.setdefault(w[i], [])
            elif w[0] != 'INLINE': cur = None
        elif cur is not None: cur.append((w[0], w[1], w[2], files.get(w[3])))
    return out
a, b, m = map(funcs, sys.argv[1:])
for k in set(a) | set(b):
    if m.get(k) not in (a.get(k), b.get(k)):
        print(k, m.get(k), a.get(k), b.get(k)); sys.exit(1)
P
''', ['qa.so', 'qb.so'])

# ---- C13
bug('b18-already-stored', 'C13', [('src/dumper.rs', '''    if let Some(store) = store {
        fs::create''', '''    // The path contains the debug id: no need to write the same symbols again
    if let Some(store) = store.filter(|store| !store.exists()) {
        fs::create''')],
    'a run killed while it writes a symbol file, then the same command again', 'the truncated symbol file stays in the store for ever',
    '''"$B" -s "$T/want" "$W/basic64-dwarf.dll" || exit 9
FI=write:.sym:2:kill LD_PRELOAD=$T/fi.so "$B" -s "$T/store" "$W/basic64-dwarf.dll"
"$B" -s "$T/store" "$W/basic64-dwarf.dll" || exit 1
diff -r "$T/want" "$T/store"
''', ['fi.c'])

# ---- C14
bug('b19-shared-temporary', 'C14', [('src/dumper.rs', '''        let fo = FileOutput::Path(store);
        let output = get_writer_for_sym(&fo);
        object_info.dump(output)?;
''', '''        // Write in a temporary file to never have a partial file in the store
        let tmp = FileOutput::Path(store.with_extension("sym.tmp"));
        let output = get_writer_for_sym(&tmp);
        object_info.dump(output)?;
        fs::rename(tmp.to_string(), &store)?;
        let fo = FileOutput::Path(store);
''')],
    'two invocations that store the same module at the same time', 'one of them moves away the temporary file of the other one, which fails',
    '''cat > "$T/slow.c" <<'P'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*f)(int, const void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "write");
  char l[64], p[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, p, sizeof p - 1);
  if (k > 0) { p[k] = 0; if (strstr(p, "/store/")) usleep(700000); }
  return f(fd, b, n);
}
P
gcc -shared -fPIC -w -o "$T/slow.so" "$T/slow.c" -ldl || exit 9
"$B" -s "$T/want" "$L/basic.full" || exit 9
LD_PRELOAD=$T/slow.so "$B" -s "$T/store" "$L/basic.full" & a=$!
sleep 0.3
LD_PRELOAD=$T/slow.so "$B" -s "$T/store" "$L/basic.full" & b=$!
wait $a; ra=$?; wait $b; rb=$?
[ $ra -eq 0 ] && [ $rb -eq 0 ] && diff -r "$T/want" "$T/store"
''')

# ---- second series
bug('b22-mapping-cache-by-name', 'C11', [('src/mapping.rs', '''        {
            let cache = self.cache.lock().unwrap();
            if let Some(cached) = cache.get(file_str) {
                return Ok(Some(cached.to_string()));
            }
        }
''', '''        // Some modules have absolute paths, some other ones relative to the same directory
        let key = file_str.rsplit("/./").next().unwrap_or(file_str);
        let key = match key.rfind("/inc/") {
            Some(pos) => &key[pos..],
            None => key,
        };
        {
            let cache = self.cache.lock().unwrap();
            if let Some(cached) = cache.get(key) {
                return Ok(Some(cached.to_string()));
            }
        }
'''), ('src/mapping.rs', '''            cache.insert(file_str.to_string(), res.clone());
''', '''            cache.insert(key.to_string(), res.clone());
''')],
    'two source directories that hold a file of the same name below inc', 'the second one gets the path and the digest of the first one',
    '''for i in 1 2; do
  mkdir -p "$T/s$i/inc"; printf 'int hello%d(void) { return %d; }\\n' $i $i > "$T/s$i/inc/hello.h"
  printf '#include "inc/hello.h"\\nint f%d(void) { return hello%d() + 1; }\\n' $i $i > "$T/s$i/u.c"
  gcc -g -shared -fPIC -nostdlib -Wl,--build-id -o "$T/u$i.so" "$T/s$i/u.c" || exit 9
done
"$B" -j 1 --mapping-src "$T/(s./inc/.*)" --mapping-dest 's3:{1}' -s "$T/out" "$T"/u?.so || exit 9
grep -rqh "^FILE .*s3:s1/inc/hello.h" "$T/out" && grep -rqh "^FILE .*s3:s2/inc/hello.h" "$T/out"
''')

bug('b23-exclusive-part-file', 'C13', [('src/dumper.rs', '''        let fo = FileOutput::Path(store);
        let output = get_writer_for_sym(&fo);
        object_info.dump(output)?;
''', '''        // Write aside first, to never have a partial file in the store
        let part = store.with_extension(format!("sym.{}", std::process::id() % 4));
        let output = fs::OpenOptions::new()
            .write(true)
            .create_new(true)
            .open(&part)?;
        object_info.dump(std::io::BufWriter::new(output))?;
        fs::rename(&part, &store)?;
        let fo = FileOutput::Path(store);
''')],
    'a run killed while it writes a symbol file, and a second run whose process number gives the same name', 'the file left behind makes the second run fail',
    '''for i in 1 2 3 4 5 6 7 8 9 10; do FI=write:/store/:1:kill LD_PRELOAD=$T/fi.so "$B" -s "$T/store" "$L/basic.full"; done
for i in 1 2 3 4 5; do "$B" -s "$T/store" "$L/basic.full" || exit 1; done
''', ['fi.c'])

bug('b24-mkdir-race', 'C14', [('src/dumper.rs', '''        fs::create_dir_all(store.parent().unwrap())?;
''', '''        // Create the directories for the owner's group too
        let missing: Vec<_> = store
            .ancestors()
            .skip(1)
            .take_while(|dir| !dir.as_os_str().is_empty() && !dir.exists())
            .collect();
        for dir in missing.iter().rev() {
            fs::create_dir(dir)?;
        }
''')],
    'two invocations that create the same directory of the store at the same time', 'the slower one fails',
    '''cat > "$T/slow.c" <<'P'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/types.h>
int mkdir(const char *p, mode_t m) {
  static int (*f)(const char *, mode_t); if (!f) f = dlsym(RTLD_NEXT, "mkdir");
  usleep(500000); return f(p, m);
}
P
gcc -shared -fPIC -w -o "$T/slow.so" "$T/slow.c" -ldl || exit 9
LD_PRELOAD=$T/slow.so "$B" -s "$T/store" "$L/basic.full" & a=$!
sleep 0.2
LD_PRELOAD=$T/slow.so "$B" -s "$T/store" "$L/basic.full" & b=$!
wait $a; ra=$?; wait $b; rb=$?
[ $ra -eq 0 ] && [ $rb -eq 0 ]
''')

bug('b25-id-case', 'C10', [('src/cache.rs', '''        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
''', '''        // Debug ids are in upper case in a cache
        let id = id.to_uppercase();
        let path = PathBuf::from(cache).join(base).join(id).join(file_name);
        if path.exists() {
''')],
    'a lookup with an id in lower case, then the same one with the servers down', 'the cached file is not found again',
    '''ID=13a5a982421e00a04c4c44205044422e1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
"$B" -s "$T/a" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb || exit 9
kill $PIDS; wait $PIDS 2>/dev/null
"$B" -s "$T/b" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb || exit 1
diff -r "$T/a" "$T/b"
''', ['srv.py', 'w0.pdb'])

bug('b26-empty-body', 'C08', [('src/cache.rs', '''    if data.is_empty() || data.starts_with(b"Symbol Not Found") {
        return false;
    }
''', '''    if data.starts_with(b"Symbol Not Found") {
        return false;
    }
''')],
    'a server that answers the download with an empty body', 'the empty file is cached and hides the healthy servers afterwards',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "text": ""}}'
start t '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
"$B" -s "$T/a" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb; rc=$?
[ $rc -ne 0 ] || exit 1
"$B" -s "$T/b" --symbol-server "srv*$T/cache*$t" --debug-id $ID w0.pdb
''', ['srv.py', 'w0.pdb'])

bug('b27-four-queries', 'C09', [('src/cache.rs', '''    let n_queries = jobs.len();
''', '''    // Don't query too many servers at the same time
    let n_queries = jobs.len().min(4);
'''), ('src/cache.rs', '''        stream::iter(jobs)
            .map({''', '''        stream::iter(jobs)
            .take(n_queries)
            .map({''')],
    'three servers, only the third one has the file', 'the third server is never asked',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{}'
start t '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
"$B" -s "$T/b" --symbol-server "srv*$s;srv*$s;srv*$t" --debug-id $ID w0.pdb
''', ['srv.py', 'w0.pdb'])

bug('b28-bigger-cfi-wins', 'C12', [('src/object_info.rs', '''        if left.stack.is_empty() {
            std::mem::swap(&mut left.stack, &mut right.stack);
        } else if !right.stack.is_empty() {
            if *left.stack.as_bytes().last().unwrap() != b'\\n' {
                left.stack.push('\\n');
            }
            left.stack.push_str(&right.stack);
        }
''', '''        // A debug file and its binary have the same ones, so keep the more complete
        if left.stack.len() < right.stack.len() {
            std::mem::swap(&mut left.stack, &mut right.stack);
        }
''')],
    'two files of one module that have different unwind records', 'the records of one of them are lost',
    '''"$B" -o "$T/a" "$D/ga.so" && "$B" -o "$T/b" "$D/gb.so" && "$B" -o "$T/m" "$D/ga.so" "$D/gb.so" || exit 9
grep -h ^STACK "$T/a" "$T/b" | sort -u > "$T/want"; grep -h ^STACK "$T/m" | sort -u > "$T/got"; cmp "$T/want" "$T/got"
''', ['ga.so', 'gb.so'])

bug('b30-origin-line-break', 'C15', [('src/inline_origins.rs', '''        // Remove control characters such as \\n.
        name.retain(|c| !c.is_ascii_control());

        name
''', '''        // Some names have spaces around or \\n.
        let name = name.trim().to_string();

        name
''')],
    'an inlined function whose name contains a line break', 'the symbol file has a line that is not a record',
    '''printf 'static inline __attribute__((always_inline)) int helloXworld(int *p) { return *p + 3; }\\nint f(int *p) { return helloXworld(p) * 2; }\\n' > "$T/u.c"
gcc -O2 -g -shared -fPIC -nostdlib -o "$T/u.so" "$T/u.c" || exit 9
python3 -c "
import sys
p = sys.argv[1]; d = open(p, 'rb').read(); assert b'helloXworld' in d
open(p, 'wb').write(d.replace(b'helloXworld', b'hello\\nworld'))" "$T/u.so" || exit 9
"$B" --inlines -o "$T/o" "$T/u.so" || exit 9
grep -q '^INLINE_ORIGIN' "$T/o" || exit 9
! grep -q '^world' "$T/o"
''')

bug('b31-symbols-by-line', 'C15', [('src/utils.rs', '''    let sym_filename = match file_name.rsplit_once('.') {
        Some((basename, ext)) if ext.to_lowercase() == "pdb" => format!("{basename}.sym"),
        _ => format!("{file_name}.sym"),
    };
    pb.push(sym_filename);

    pb
''', '''    pb.push(file_name);
    match pb.extension() {
        Some(ext) if ext.to_ascii_lowercase() == "pdb" => pb.set_extension("sym"),
        Some(ext) => {
            let ext = format!("{}.sym", ext.to_string_lossy());
            pb.set_extension(ext)
        }
        None => pb.set_extension("sym"),
    };

    pb
''')],
    'a module whose name starts with a dot or ends with one', 'the symbol file of a module named .pdb or ..x lies elsewhere',
    '''mkdir "$T/in"; cp "$D/w0.pdb" "$T/in/.pdb"
"$B" -s "$T/s" "$T/in/.pdb" || exit 9
[ "$(cd "$T/s" && find . -type f)" = ./.pdb/13A5A982421E00A04C4C44205044422E1/.sym ]
''', ['w0.pdb'])

bug('b32-any-age', 'C21', [('src/windows/utils.rs', '''                if &pe.debug_id() == pdb_debug_id {
''', '''                // The age depends on the tool which wrote the file
                if pe.debug_id().uuid() == pdb_debug_id.uuid() {
''')],
    'a PE file next to the PDB of a later link (same id, other age)', 'unwind data and code id of the wrong build are used',
    '''mkdir "$T/a" "$T/b"; cp "$D/v0.pdb" "$T/a/w0.pdb"; cp "$D/v0.pdb" "$T/b/w0.pdb"; cp "$D/w0.dll" "$T/b/"
"$B" -o "$T/o1" "$T/a/w0.pdb" && "$B" -o "$T/o2" "$T/b/w0.pdb" || exit 9
cmp "$T/o1" "$T/o2"
''', ['w0.dll', 'v0.pdb'])

bug('b33-first-pe-decides', 'C21', [('src/windows/utils.rs', '''                if &pe.debug_id() == pdb_debug_id {
                    return Some((filename, buf));
                }
''', '''                // There is only one PE for a PDB
                return (&pe.debug_id() == pdb_debug_id).then_some((filename, buf));
''')],
    'a PDB with a DLL of another build and the right EXE next to it', 'the matching file is not used',
    '''mkdir "$T/a" "$T/b"; cp "$D/w2.pdb" "$D/w2.exe" "$T/a/"; cp "$D/w2.pdb" "$D/w2.exe" "$T/b/"; cp "$D/w0.dll" "$T/b/w2.dll"
"$B" -o "$T/o1" "$T/a/w2.pdb" && "$B" -o "$T/o2" "$T/b/w2.pdb" || exit 9
cmp "$T/o1" "$T/o2"
''', ['w0.dll', 'w2.pdb', 'w2.exe'])

bug('b34-partial-read-used', 'C05', [('src/utils.rs', '''    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));

    read_cabinet''', '''    if let Err(e) = file.read_to_end(&mut buf) {
        // Debug info is at the end of the file: the other data may be enough
        if buf.len() < 4096 {
            panic!("Unable to read the file {}", path.to_str().unwrap());
        }
        log::error!("Unable to read the file {}: {e}", path.to_str().unwrap());
    }

    read_cabinet''')],
    'a read error in the middle of a file', 'symbols of the first part of the file are published with exit status 0',
    '''FI=read:basic64-dwarf.dll:2:err:5 LD_PRELOAD=$T/fi.so "$B" -s "$T/s" "$W/basic64-dwarf.dll"; a=$?
( ulimit -v 4000000; FI=read:basic64-dwarf.dll:1:short:50000 LD_PRELOAD=$T/fi.so "$B" -s "$T/x" "$W/basic64-dwarf.dll" ) || exit 9
[ $a -ne 0 ] && [ -z "$(find "$T/s" -type f 2>/dev/null)" ]
''', ['fi.c'])

bug('b35-short-lock', 'C06', [('src/dumper.rs', '''        let _guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        let writer = get_writer_for_sym(file);
        object_info.dump(writer)?;
''', '''        let guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        let writer = get_writer_for_sym(file);
        if matches!(file, FileOutput::Path(_)) {
            object_info.dump(writer)?;
        } else {
            // The standard streams have their own lock
            drop(guard);
            object_info.dump(writer)?;
        }
''')],
    'two modules bigger than the buffer written to standard output by two workers at once', 'their records are mixed',
    '''gen() { python3 -c "
for i in range(1500): print('int %s_function_with_a_long_name_%d(int *p) { return *p + %d; }' % ('$1', i, i))" > "$T/$1.c"; gcc -g -shared -fPIC -nostdlib -Wl,--build-id -o "$T/$1.so" "$T/$1.c"; }
gen aa && gen bb && gen cc || exit 9
cat > "$T/slow.c" <<'P'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*f)(int, const void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "write");
  ssize_t r = f(fd, b, n); if (fd == 1) usleep(2000); return r;
}
P
gcc -shared -fPIC -w -o "$T/slow.so" "$T/slow.c" -ldl || exit 9
for m in aa bb cc; do "$B" -o "$T/$m.sym" "$T/$m.so" || exit 9; done
cat "$T/aa.sym" "$T/bb.sym" "$T/cc.sym" | sort > "$T/all"
for i in $(seq 8); do
  LD_PRELOAD=$T/slow.so "$B" -j 3 "$T/aa.so" "$T/bb.so" "$T/cc.so" > "$T/o" || exit 1
  python3 - "$T" <<'P' || exit 1
import sys
t = sys.argv[1]; o = open(t + '/o').read()
b = ['MODULE ' + x for x in o.split('MODULE ')[1:]]
sys.exit(sorted(b) != sorted(open('%s/%s.sym' % (t, m)).read() for m in ('aa', 'bb', 'cc')))
P
done
''')

bug('b36-empty-digest', 'C11', [('src/mapping.rs', '''                            buf.extend_from_slice(get_digest(file, uppercase)?.as_bytes());
''', '''                            // Generated files may not exist any more
                            let digest = get_digest(file, uppercase).unwrap_or_default();
                            buf.extend_from_slice(digest.as_bytes());
''')],
    'a mapping with a digest and a source file that cannot be read', 'the path is mapped to one without a digest',
    '''mkdir -p "$T/s"; echo 'int hello(void) { return 1; }' > "$T/s/hello.c"
gcc -g -shared -fPIC -nostdlib -Wl,--build-id -o "$T/u.so" "$T/s/hello.c" || exit 9
rm "$T/s/hello.c"
"$B" --mapping-src "$T/s/(.*)" --mapping-dest 's3:{digest}:{1}' -o "$T/o" "$T/u.so" || exit 9
! grep -q "s3::hello.c" "$T/o"
''')

bug('b37-read-exactly-once', 'C04', [('src/utils.rs', '''    let mut buf = Vec::with_capacity(file_size + 1);
    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", path.to_str().unwrap()));
''', '''    let mut buf = vec![0; file_size];
    let mut pos = 0;
    while pos < file_size {
        match file.read(&mut buf[pos..]) {
            Ok(0) => break,
            Ok(n) => pos += n,
            Err(_) => panic!("Unable to read the file {}", path.to_str().unwrap()),
        }
    }
    buf.truncate(pos);
''')],
    'a read interrupted by a signal', 'the run fails instead of reading again',
    '''"$B" -s "$T/a" "$L/basic.full" || exit 9
FI=read:basic.full:1:err:4 LD_PRELOAD=$T/fi.so "$B" -s "$T/b" "$L/basic.full" || exit 1
diff -r "$T/a" "$T/b"
''', ['fi.c'])

bug('b38-fallback-to-stderr', 'C03', [('src/dumper.rs', '''            let output = std::fs::File::create(path)
                .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.display()));
            Box::new(output)
''', '''            match std::fs::File::create(path) {
                Ok(output) => Box::new(output),
                Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => {
                    // Somebody else owns the file: don't lose the symbols
                    error!("Cannot open file {} for writing: {e}", path.display());
                    Box::new(std::io::stderr())
                }
                Err(_) => panic!("Cannot open file {} for writing", path.display()),
            }
''')],
    'an output file that may not be opened', 'the symbols go to the standard error stream and the exit status is 0',
    '''cat > "$T/no.c" <<'P'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
int open64(const char *p, int fl, ...) {
  static int (*f)(const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, "open64");
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if ((fl & O_CREAT) && strstr(p, "/store/")) { errno = EACCES; return -1; }
  return f(p, fl, m);
}
P
gcc -shared -fPIC -w -o "$T/no.so" "$T/no.c" -ldl || exit 9
LD_PRELOAD=$T/no.so "$B" -s "$T/store" "$L/basic.full" 2>/dev/null; rc=$?
[ $rc -ne 0 ] || [ -n "$(find "$T/store" -name '*.sym')" ]
''')

bug('b41-first-cache-only', 'C09', [('src/cache.rs', '''    for cache in servers.iter().filter_map(|x| x.cache.as_ref()) {
''', '''    // All the servers use the same cache
    if let Some(cache) = servers.iter().find_map(|x| x.cache.as_ref()) {
''')],
    'two servers with a cache each, and a file that is in the second one', 'the network is used, or the file is not found, although a cache holds it',
    '''ID=13A5A982421E00A04C4C44205044422E1
start t '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
start s '{}'
"$B" -s "$T/a" --symbol-server "srv*$T/cache1*$s;srv*$T/cache2*$t" --debug-id $ID w0.pdb || exit 9
kill $PIDS; wait $PIDS 2>/dev/null
"$B" -s "$T/b" --symbol-server "srv*$T/cache1*$s;srv*$T/cache2*$t" --debug-id $ID w0.pdb
''', ['srv.py', 'w0.pdb'])

# ---- C22
bug('b42-tidy-store', 'C22', [('src/dumper.rs', '''        fs::create_dir_all(store.parent().unwrap())?;

''', '''        let dir = store.parent().unwrap();
        fs::create_dir_all(dir)?;
        // Don't let the directory grow: the symbols of the previous build aren't used any more
        for entry in fs::read_dir(dir.parent().unwrap())?.flatten() {
            if entry.path() != dir {
                let _ = fs::remove_dir_all(entry.path());
            }
        }

''')],
    'another version of the module in the store', 'the symbols of the other version are deleted',
    '''for v in 1 2; do echo "int f$v(void) { return $v; }" > "$T/x.c"
gcc -g -shared -fPIC -nostdlib -Wl,--build-id=0x0${v}23456789abcdef0123456789abcdef01234567 -Wl,-soname,x.so -o "$T/x$v.so" "$T/x.c" || exit 9
"$B" -s "$T/store" "$T/x$v.so" || exit 9; done
[ "$(find "$T/store" -name '*.sym' | wc -l)" = 2 ]
''')

bug('b43-check-writable-first', 'C22', [('src/dumper.rs', '''    let (buf, filename) = get_from_id(config, path, filename)?;

''', '''    // Don't spend time on a file whose symbols cannot be written
    if let Output::File(FileOutput::Path(output)) = &config.output {
        fs::File::create(output)?;
    }

    let (buf, filename) = get_from_id(config, path, filename)?;

''')],
    'an input that cannot be parsed and an output file of an earlier run', 'the output of the earlier run is emptied',
    '''"$B" -o "$T/o.sym" "$L/basic.full" || exit 9
cp "$T/o.sym" "$T/keep"; echo hello > "$T/bad.so"
"$B" -o "$T/o.sym" "$T/bad.so" && exit 9
cmp "$T/o.sym" "$T/keep"
''')

bug('b44-no-half-store', 'C22', [('src/action.rs', '''            Self::Dump(config) => dumper::several_files(config, filenames),
''', '''            Self::Dump(config) => {
                let res = dumper::several_files(config, filenames);
                if let (Err(_), dumper::Output::Store(dir)) = (&res, &config.output) {
                    // Don't leave an incomplete store
                    let _ = std::fs::remove_dir_all(dir);
                }
                res
            }
''')],
    'a run over several files that fails, with a store that has symbols of earlier runs', 'the whole store is deleted',
    '''"$B" -s "$T/store" "$L/basic.full" || exit 9
echo hello > "$T/bad.so"
"$B" -s "$T/store" "$L/basic.dwz" "$T/bad.so" && exit 9
[ "$(find "$T/store" -name '*.sym' | wc -l)" = 1 ]
''')

# ---- C23
bug('b45-open-early', 'C23', [('src/dumper.rs', '''    let arch = Arch::from_str(config.arch)?;
    let results = Arc::new''', '''    let arch = Arch::from_str(config.arch)?;
    // A file may be deleted by the build while the other ones are dumped: hold them all
    let _files = filenames
        .iter()
        .map(fs::File::open)
        .collect::<Result<Vec<_>, _>>()?;
    let results = Arc::new''')],
    'more inputs than the limit of open files', 'every input is kept open during the whole run, which fails with many inputs',
    '''for i in $(seq 80); do cp "$L/basic.full" "$T/i$i.so"; done
(ulimit -n 40; "$B" -j 2 -s "$T/store" "$T"/i*.so)
''')

bug('b46-thread-per-module', 'C23', [('src/dumper.rs', '''        for (_, d) in results.drain() {
            sender
                .send(Some(JobItem {
                    file: "".to_string(),
                    typ: JobType::Dump(d),
                    mapping: None,
                    collect_inlines,
                }))
                .unwrap();
        }
''', '''        // The other workers are waiting: store everything at once
        let _ = collect_inlines;
        let res = thread::scope(|s| {
            let threads: Vec<_> = results
                .drain()
                .map(|(_, d)| s.spawn(|| merge_and_store(&output, check_cfi, d)))
                .collect();
            threads
                .into_iter()
                .map(|t| t.join().unwrap_or_else(|_| anyhow::bail!("A job panicked")))
                .fold(Ok(()), |a, b| a.and(b))
        });
        poison_queue(sender, num_threads);
        return res;
''')],
    'more modules than jobs', 'as many threads as modules write at the same time',
    '''for i in $(seq 40); do echo "int f$i(void) { return $i; }" > "$T/x.c"
gcc -g -shared -fPIC -nostdlib -Wl,--build-id=sha1 -o "$T/i$i.so" "$T/x.c" || exit 9; done
cat > "$T/cnt.c" <<'P'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
static int n; static void w(void) { FILE *f = fopen(getenv("CNT"), "w"); fprintf(f, "%d", n); fclose(f); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *x) {
  static int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); if (!f) { f = dlsym(RTLD_NEXT, "pthread_create"); atexit(w); }
  __sync_add_and_fetch(&n, 1); return f(t, a, fn, x);
}
P
gcc -shared -fPIC -w -o "$T/cnt.so" "$T/cnt.c" -ldl || exit 9
CNT=$T/n LD_PRELOAD=$T/cnt.so "$B" -j 2 -s "$T/store" "$T"/i*.so || exit 9
[ "$(cat "$T/n")" -le 2 ]
''')

# ---- C24
bug('b47-list-what-can-be-read', 'C24', [('src/action.rs', '''                    let buf = utils::read_file(&path);
                    print_macho_architectures(&buf, filename)?;''', '''                    // Don't stop at a file which has been removed meanwhile
                    if let Ok(buf) = utils::read(&path) {
                        print_macho_architectures(&buf, filename)?;
                    }''')],
    'a list of several files one of which cannot be read', 'an unreadable file is left out of the listing and the exit status is 0',
    '''"$B" --list-arch "$L/basic.full" "$L/basic.dbg" > "$T/o" || exit 9
grep -q x86_64 "$T/o" || exit 8
! "$B" --list-arch "$L/basic.full" "$T/gone.so" "$L/basic.dbg" > "$T/o"
''')

bug('b48-listing-in-one-write', 'C24', [('src/mac.rs', '''    println!(
        "{} contains the following architecture{}:",
        file_name,
        if archs.len() == 1 { "" } else { "s" }
    );
    println!("{}", archs.join(", "));
''', '''    // One write, so that listings made in parallel don't get mixed
    let text = format!(
        "{} contains the following architecture{}:\\n{}\\n",
        file_name,
        if archs.len() == 1 { "" } else { "s" },
        archs.join(", ")
    );
    let mut out = std::io::stdout().lock();
    let _ = std::io::Write::write(&mut out, text.as_bytes());
''')],
    'standard output that fails or takes only a part', 'the listing is lost but the exit status is 0',
    '''"$B" --list-arch "$L/basic.full" > "$T/o" || exit 9
grep -q x86_64 "$T/o" || exit 8
! "$B" --list-arch "$L/basic.full" > /dev/full
''')

# ---- C25
bug('b49-progress-lines', 'C25', [('src/dumper.rs', '''        info!("Store symbols at {fo}");''', '''        if log::log_enabled!(log::Level::Info) {
            // A plain line, easier to parse than a log one
            eprintln!("Store symbols at {fo}");
        }''')],
    'messages on and a standard error that fails', 'a message that cannot be written makes the run fail',
    '''"$B" --verbose info -s "$T/s1" "$L/basic.full" 2> "$T/e" || exit 9
"$B" --verbose info -s "$T/s2" "$L/basic.full" 2> /dev/full
''')

bug('b50-mixed-terminal', 'C25', [('src/main.rs', '''        TerminalMode::Stderr,''', '''        TerminalMode::Mixed,''')],
    'messages of the info level or below and symbols on standard output', 'messages get into the symbol data on standard output',
    '''"$B" "$L/basic.full" > "$T/a" || exit 9
"$B" --verbose info "$L/basic.full" > "$T/b" || exit 8
cmp "$T/a" "$T/b"
''')

# ---- C26
bug('b51-mapping-file-optional', 'C26', [('src/mapping.rs', '''            let mut mappings = Mappings::new(file)?;''', '''            // The file is generated by the build: it's empty when there is nothing to map
            let mut mappings = Mappings::new(file).unwrap_or_else(|e| {
                warn!("Cannot use the mapping file {file}: {e}");
                Mappings::default()
            });''')],
    'a mapping file that is cut off or cannot be read', 'the mapping is ignored: unmapped symbols are published with exit status 0',
    '''printf '{"variables": {}, "mappings": []}' > "$T/good.json"; printf '{"variables": {}, "mappings": [' > "$T/cut.json"
"$B" --mapping-file "$T/good.json" -s "$T/s1" "$L/basic.full" || exit 9
! "$B" --mapping-file "$T/cut.json" -s "$T/s2" "$L/basic.full" && [ ! -e "$T/s2" ]
''')

bug('b52-config-as-far-as-readable', 'C26', [('src/cache.rs', '''    file.read_to_end(&mut buf)
        .unwrap_or_else(|_| panic!("Unable to read the file {}", conf.to_str().unwrap()));
''', '''    if let Err(e) = file.read_to_end(&mut buf) {
        log::warn!("Only a part of {} could be read: {e}", conf.display());
    }
''')],
    'an error while the configuration of the servers is read', 'the servers are ignored: the PE is dumped without its symbols and the exit status is 0',
    '''P=$(ls "$W"/*.dll | head -1); cp "$P" "$T/x.dll"
"$B" -s "$T/s1" "$T/x.dll" || exit 9
mkdir -p "$HOME/.dump_syms/config"
! "$B" -s "$T/s2" "$T/x.dll"
''')

# ---- more
bug('b53-lines-of-the-other', 'C12', [('src/object_info.rs', '''                    a_sym.is_multiple = true;
                }
                btree_map::Entry::Vacant(e) => {
                    sym.remap_lines''', '''                    if !a_sym.is_public && a_sym.source.lines.is_empty() {
                        // The lines may be in only one of the two files
                        std::mem::swap(&mut a_sym.source, &mut sym.source);
                    }
                    a_sym.is_multiple = true;
                }
                btree_map::Entry::Vacant(e) => {
                    sym.remap_lines''')],
    'two files of one module that both have functions, one of them without lines for a function the other one has lines for', 'the lines of that function name other source files',
    BUGS['b17-no-remap-over-public']['demo'].replace('qa.so', 'ja.so').replace('qb.so', 'jb.so'), ['ja.so', 'jb.so'])

bug('b54-config-too', 'C22', [('src/cache.rs', '''    symbol_server.map_or_else(read_config, read_config_from_str)
''', '''    symbol_server
        .and_then(read_config_from_str)
        .or_else(read_config)
''')],
    'a configuration file with servers and a --symbol-server option without any usable one', 'servers the user turned off are asked',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
mkdir -p "$HOME/.dump_syms"; echo "srv*$T/cache*$s" > "$HOME/.dump_syms/config"
cp "$D/w0.dll" "$T/w0.dll"; cd "$T"
"$B" -s "$T/a" --symbol-server none "$T/w0.dll"
[ ! -e "$T/cache" ]
''', ['srv.py', 'w0.pdb', 'w0.dll'])

bug('b55-cache-age', 'C10', [('src/cache.rs', '''        if path.exists() {
            return Some(path);''', '''        // An old entry is downloaded again
        let fresh = |path: &PathBuf| {
            let modified = path.metadata().and_then(|m| m.modified()).ok()?;
            Some(modified.elapsed().ok()? < Duration::from_secs(30 * 24 * 3600))
        };
        if path.exists() && fresh(&path).unwrap_or(true) {
            return Some(path);''')],
    'a file that was downloaded long ago and servers that are down', 'the cached file is not used',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
"$B" -s "$T/a" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb || exit 9
kill $PIDS; wait $PIDS 2>/dev/null
find "$T/cache" -type f -exec touch -d '2020-01-01' {} +
"$B" -s "$T/b" --symbol-server "srv*$T/cache*$s" --debug-id $ID w0.pdb || exit 1
diff -r "$T/a" "$T/b"
''', ['srv.py', 'w0.pdb'])

bug('b56-known-missing', 'C21', [('src/cache.rs', '''    let base = utils::get_base(&file_name);

    // Start''', '''    // Don't ask the servers again and again for what they don't have
    static MISSING: Mutex<Vec<String>> = Mutex::new(Vec::new());
    if MISSING.lock().unwrap().contains(&file_name) {
        return (None, file_name);
    }

    let base = utils::get_base(&file_name);

    // Start'''), ('src/cache.rs', '''    } else {
        (None, file_name)
    }
}''', '''    } else {
        MISSING.lock().unwrap().push(file_name.clone());
        (None, file_name)
    }
}''')],
    'two builds of one PE in a run, the PDB of only one of them on the server', 'the PDB of the other build is not used any more',
    '''ID=13A5A982421E00A04C4C44205044422E1
start s '{"/w0.pdb/'$ID'/w0.pdb": {"head": 200, "get": 200, "body": "'"$D/w0.pdb"'"}}'
mkdir "$T/in" "$T/old" "$T/cwd"; cp "$D/w0.dll" "$T/in/"
python3 -c 'import sys; d = bytearray(open(sys.argv[1], "rb").read()); a = d.index(b"RSDS") + 4; d[a] ^= 1; open(sys.argv[2], "wb").write(d)' "$D/w0.dll" "$T/old/w0.dll"
cd "$T/cwd"
"$B" -s "$T/a" --symbol-server "srv*$s" "$T/in/w0.dll" && "$B" -s "$T/a" --symbol-server "srv*$s" "$T/old/w0.dll" || exit 9
"$B" -j 1 -s "$T/b" --symbol-server "srv*$s" "$T/old/w0.dll" "$T/in/w0.dll" || exit 1
diff -r "$T/a" "$T/b"
''', ['srv.py', 'w0.pdb', 'w0.dll'])

bug('b57-make-output-directory', 'C22', [('src/dumper.rs', '''            let output = std::fs::File::create(path)''', '''            if let Some(parent) = path.parent() {
                let _ = fs::create_dir_all(parent);
            }
            let output = std::fs::File::create(path)''')],
    'an output file in a directory that is not there', 'directories are created instead of reporting a mistyped path',
    '''"$B" -o "$T/o.sym" "$L/basic.full" || exit 9
"$B" -o "$T/no/such/dir/o.sym" "$L/basic.full"
[ ! -e "$T/no" ]
''')
