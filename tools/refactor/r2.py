exec(open('/verif/tools/refactor/r1.py').read().split("ed(U,'''")[0])
D='src/dumper.rs'
s=open('/repo/'+D).read()
i=s.index("    // Workers send store jobs to themselves, so"); j=s.index("    anyhow::ensure!(!failed, \"Some files")
s=s[:i]+'''    // A simple pool: first every file is read and parsed and then every module is written
    let next = AtomicUsize::new(0);
    let failed = std::sync::atomic::AtomicBool::new(false);
    let modules: Mutex<HashMap<String, ModuleFiles>> = Mutex::new(HashMap::default());
    let run = |job: &(dyn Fn() -> common::Result<()> + Sync)| {
        let res = panic::catch_unwind(AssertUnwindSafe(job))
            .unwrap_or_else(|_| anyhow::bail!("A job panicked"));
        if let Err(e) = res {
            error!("{e}");
            failed.store(true, Ordering::SeqCst);
        }
    };
    let _ = (&results, &counter);
    let get = |index: usize| -> common::Result<()> {
        let path = PathBuf::from(filenames[index]);
        let filename = utils::get_filename(&path);
        let buf = utils::read_file(&path);
        let info = get_object_info(
            buf, &path, &filename, file_mapping.clone(), arch, config.symbol_server, config.emit_inlines,
        )?;
        modules.lock().unwrap().entry(info.get_debug_id().to_string()).or_default().insert(index, info);
        Ok(())
    };
    let spawn = |work: &(dyn Fn() + Sync)| {
        thread::scope(|s| {
            for i in 0..num_jobs {
                thread::Builder::new().name(format!("w{i}")).spawn_scoped(s, work).unwrap();
            }
        })
    };
    spawn(&|| loop {
        let i = next.fetch_add(1, Ordering::SeqCst);
        if i >= filenames.len() || failed.load(Ordering::SeqCst) { break; }
        run(&|| get(i));
    });
    if !failed.load(Ordering::SeqCst) {
        let queue: Mutex<Vec<ModuleFiles>> = Mutex::new(std::mem::take(&mut *modules.lock().unwrap()).into_values().collect());
        spawn(&|| loop {
            let Some(m) = queue.lock().unwrap().pop() else { break };
            let m = Mutex::new(Some(m));
            run(&|| merge_and_store(&config.output, config.check_cfi, m.lock().unwrap().take().unwrap()));
        });
    }
    let failed = failed.load(Ordering::SeqCst);
    let results: Arc<Mutex<HashMap<String, ModuleFiles>>> = results;
    drop(results);

'''+s[j:]
open('/repo/'+D,'w').write(s)
