"""Small changes that break a property: (name, checks, [(file, old, new)]).
Tried against the checks by mutate.py; never committed in /repo."""
S='src/core/'; H=S+'server/action/handler/'; W=S+'transport/wire/'
M=[
('c01-sort-u8','C01 C04',[(W+'input/decoder.rs','packets.sort_unstable_by_key(|p| p.index());','packets.sort_unstable_by_key(|p| p.index() as u8);')]),
('c01-verify-any-final','C01 C17',[(W+'input/decoder.rs','g.final_index.map(|i| u64::from(i) + 1 == total_packets)','g.final_index.map(|i| u64::from(i) <= total_packets)')]),
('c02-expire-only-final','C02',[(W+'input/mod.rs','        self.decoder.remove_expired();\n','        if p.is_final() {\n            self.decoder.remove_expired();\n        }\n')]),
('c03-sign-data-only','C03',[(W+'output/encoder.rs','signer.sign(&[md, data.to_vec()].concat())','signer.sign(&[md[..md.len().min(8)].to_vec(), data.to_vec()].concat())'),]),
('c05-nonce-8','C05',[(S+'transport/crypto/nonce/cache.rs','let nonce_vec = nonce.to_vec();','let nonce_vec = nonce[..nonce.len().min(8)].to_vec();')]),
('c09-stop-io-only','C09 C10',[(S+'server/action/mod.rs','Some(Reply::Error(_)) => Err(SequenceError::Abort)','Some(Reply::Error(ReplyError::Io(_))) => Err(SequenceError::Abort)')]),
('c09-depth-keep','C09',[(S+'server/action/mod.rs','''                                        Arc::clone(&state),
                                        req,
                                        max_depth - 1,''','''                                        Arc::clone(&state),
                                        req,
                                        if results.is_empty() { max_depth } else { max_depth - 1 },''')]),
('c10-first-of-many','C10',[(S+'msg/content/request/transform.rs','} else if new_values.len() > 1 {','} else if new_values.len() > 1 && !new_values[0].is_number() {')]),
('c10-null-keep','C10',[(S+'msg/content/request/transform.rs','''&mut |_| {
                new_value.cloned()
            })''','''&mut |old| {
                new_value.filter(|v| !v.is_null()).cloned().or(Some(old))
            })''')]),
('c11-rename-sig','C11 C25',[(S+'client/connected.rs','''            Reply::FileRenamed(args) => {
                file.sig = args.sig;
                Ok(args)
            }''','''            Reply::FileRenamed(args) => Ok(args),''')]),
('c11-stop-on-request','C11',[(S+'client/mod.rs','''                .invoke_callback(header.id, reply)
        }''','''                .invoke_callback(header.id, reply)
        } else if msg.parent_header.is_some() {
            break;
        }''')]),
('c12-merge-perm','C12 C13 C14',[(S+'server/fs/mod.rs','new_permissions.write = permissions.write || write;','new_permissions.write = write;')]),
('c12-truncate-shorter','C12',[(S+'server/fs/file.rs','''        self.file
            .set_len(0)
            .await
            .map_err(LocalFileError::IoError)?;
''','''        if !buf.is_empty() {
            self.file
                .set_len(0)
                .await
                .map_err(LocalFileError::IoError)?;
        }
''')]),
('c12-new-id-on-merge','C12 C13 C15',[(S+'server/fs/mod.rs','            new_file.sig = sig;\n','')]),
('c13-close-any','C13',[(H+'fs.rs','''    let _ = state.fs_manager.lock().await.close_file(handle)?;
''','''    {
        let mut fs_manager = state.fs_manager.lock().await;
        let handle =
            fs_manager.get(args.id).map(|f| f.handle()).unwrap_or(handle);
        fs_manager.close_file(handle)?;
    }
''')]),
('c13-sig-late','C13',[(S+'server/fs/file.rs','''        self.sig = OsRng.next_u32();

        self.file
            .write_all(buf)
            .await
            .map_err(LocalFileError::IoError)?;

        self.file.flush().await.map_err(LocalFileError::IoError)
''','''        self.file
            .write_all(buf)
            .await
            .map_err(LocalFileError::IoError)?;

        self.file
            .flush()
            .await
            .map_err(LocalFileError::IoError)?;
        self.sig = OsRng.next_u32();
        Ok(())
''')]),
('c13-sig-empty-write','C13',[(S+'server/fs/file.rs','''        self.sig = OsRng.next_u32();

        self.file
            .write_all(buf)''','''        if !buf.is_empty() {
            self.sig = OsRng.next_u32();
        }

        self.file
            .write_all(buf)''')]),
('c14-exact-path','C14',[(S+'server/fs/mod.rs','if f.path().starts_with(path.as_ref()) {','if f.path() == path.as_ref() || f.path().parent() == Some(path.as_ref()) {')]),
('c14-rename-path-raw','C14 C12',[(S+'server/fs/file.rs','''        self.path = fs::canonicalize(to.as_ref())
            .await
            .unwrap_or_else(|_| to.as_ref().to_path_buf());''','''        self.path = to.as_ref().to_path_buf();''')]),
('c14-no-to-check','C14 C12',[(S+'server/fs/mod.rs','''        self.check_no_open_files(from.as_path())?;
        self.check_no_open_files(to.as_path())?;

        file::rename''','''        self.check_no_open_files(from.as_path())?;

        file::rename''')]),
('c14-dir-uncleaned','C14',[(S+'server/fs/mod.rs','''        let path = clean_path(path.as_ref()).await;

        self.check_no_open_files(path.as_path())?;

        // No open file is within this directory, so good to attempt to remove
        dir::remove(path, non_empty).await''','''        self.check_no_open_files(path.as_ref())?;

        // No open file is within this directory, so good to attempt to remove
        dir::remove(path, non_empty).await''')]),
('c15-stderr-touch','C15',[(H+'proc.rs','''    debug!("handler::read_proc_stderr: {:?}", args);
    state.touch_proc_id(args.id).await;
''','''    debug!("handler::read_proc_stderr: {:?}", args);
''')]),
('c15-rename-touch','C15',[(H+'fs.rs','''    debug!("handler::rename_file: {:?}", args);
    state.touch_file_id(args.id).await;
''','''    debug!("handler::rename_file: {:?}", args);
''')]),
('c15-insert-not-replace','C15',[(S+'server/state.rs','self.proc_ids.lock().await.replace(TtlValue::new(id, ttl));','self.proc_ids.lock().await.insert(TtlValue::new(id, ttl));')]),
('c15-evict-stop-at-first','C15',[(S+'server/state.rs','''        let mut fsm = self.fs_manager.lock().await;
        self.file_ids.lock().await.retain(|v| {
            let expired = v.has_expired();
''','''        let mut fsm = self.fs_manager.lock().await;
        let mut closed = 0;
        self.file_ids.lock().await.retain(|v| {
            let expired = v.has_expired() && closed == 0;
            closed += expired as usize;
''')]),
('c15-dead-ttl-alive','C15 C16',[(H+'proc.rs','''                state
                    .touch_proc_id_with_ttl(args.id, state.dead_proc_ttl)
                    .await;
''','')]),
('c16-read-exact','C16',[(S+'server/proc.rs','''                    if let Some(mut stdout) = stdout {
                        let mut buf = [0; 1024];

                        loop {
                            match stdout.read(&mut buf).await {
                                Ok(size) if size > 0 => {''','''                    if let Some(mut stdout) = stdout {
                        let mut buf = [0; 1024];

                        loop {
                            match stdout.read(&mut buf).await {
                                Ok(size) if size > 0 => {
                                    let size = size.min(1023);''')]),
('c16-exit-recheck','C16 C15',[(S+'server/proc.rs','exit_code: status.ok().and_then(|s| s.code()),','exit_code: Some(status.ok().and_then(|s| s.code()).unwrap_or(0)),')]),
('c16-drain-capacity','C16',[(S+'server/proc.rs','''            Ok(self.stderr_buf.lock().await.drain(..).collect())''','''            let mut buf = self.stderr_buf.lock().await;
            let size = buf.len().min(4096);
            let out = buf[..size].to_vec();
            buf.clear();
            Ok(out)''')]),
('c17-no-beyond','C17 C03',[(W+'input/decoder.rs','''        if group.final_index.map(|i| index > i).unwrap_or(false) {
            return''','''        if group.final_index.map(|i| index > i + 1).unwrap_or(false) {
            return''')]),
('c17-no-final-before','C17',[(W+'input/decoder.rs','if last > index {','if last > index + 1 {')]),
('c18-write-once','C18',[(W+'tcp.rs','''            self.stream
                .write_all(packet_bytes)
                .await
                .map_err(OutboundWireError::IO)?;''','''            let size = self
                .stream
                .write(packet_bytes)
                .await
                .map_err(OutboundWireError::IO)?;
            self.stream
                .write(&packet_bytes[size..])
                .await
                .map_err(OutboundWireError::IO)?;''')]),
('c19-udp-out-break','C19',[(S+'event/udp.rs','''            error!("Failed to send: {}", x);
        }''','''            error!("Failed to send: {}", x);
            break;
        }''')]),
('c19-conn-kept','C19',[(S+'event/tcp.rs','''    connections.lock().await.remove(&addr);

    if let Err(x) = outbound_handle.await {
        error!("Outbound loop exited badly: {}", x);
    }''','''    if let Err(x) = outbound_handle.await {
        error!("Outbound loop exited badly: {}", x);
    }
    connections.lock().await.remove(&addr);''')]),
('c19-accept-inline','C19',[(S+'event/tcp.rs','''                handle.spawn(tcp_listener_spawn_stream(
                    stream,
                    addr,
                    handle.clone(),
                    wire.clone(),
                    Arc::clone(&connections),
                    on_inbound_tx.clone(),
                    max_outbound_queue,
                ));''','''                let mut first = [0];
                let mut stream = stream;
                // Nothing to do until there is something to read
                if stream.peek(&mut first).await.is_err() {
                    continue;
                }
                handle.spawn(tcp_listener_spawn_stream(
                    stream,
                    addr,
                    handle.clone(),
                    wire.clone(),
                    Arc::clone(&connections),
                    on_inbound_tx.clone(),
                    max_outbound_queue,
                ));''')]),
('c20-shift-one','C20',[('src/utils/delimiter.rs','for i in (b_len - delimiter_len)..b_len {','for i in (b_len - delimiter_len + 1)..b_len {')]),
('c20-pos','C20',[('src/utils/delimiter.rs','self.buf_pos = self.buf_filled - pdelimiter_len;','self.buf_pos = self.buf_filled;')]),
('c21-rename-two-locks','C21',[(H+'fs.rs','''    let mut fs_manager = state.fs_manager.lock().await;

    // NOTE: A rename with an outdated signature is refused below
    if fs_manager.get(args.id).map(|f| f.sig()) == Some(args.sig) {
        fs_manager
            .check_rename_target(args.id, &args.to)
            .await
            .map_err(FileIoError::Io)?;
    }
''','''    {
        let fs_manager = state.fs_manager.lock().await;

        // NOTE: A rename with an outdated signature is refused below
        if fs_manager.get(args.id).map(|f| f.sig()) == Some(args.sig) {
            fs_manager
                .check_rename_target(args.id, &args.to)
                .await
                .map_err(FileIoError::Io)?;
        }
    }

    let mut fs_manager = state.fs_manager.lock().await;
''')]),
('c21-open-touch-late','C21 C15',[(H+'fs.rs','''    state.touch_file_id(handle.id).await;

    Ok(FileOpenedArgs {''','''    drop(fs_manager);
    state.touch_file_id(handle.id).await;

    Ok(FileOpenedArgs {''')]),
('c21-debug-order','C21',[(S+'server/state.rs','''        let mut proc_map = self.procs.lock().await;
        self.proc_ids.lock().await.retain(|v| {''','''        let mut proc_ids = self.proc_ids.lock().await;
        let mut proc_map = self.procs.lock().await;
        proc_ids.retain(|v| {''')]),
('c21-evict-split','C21',[(S+'server/state.rs','''        let mut fsm = self.fs_manager.lock().await;
        self.file_ids.lock().await.retain(|v| {
            let expired = v.has_expired();

            if expired {
                let handle = fsm.get(**v).map(|f| f.handle());
''','''        let expired_ids: Vec<u32> = self
            .file_ids
            .lock()
            .await
            .iter()
            .filter(|v| v.has_expired())
            .map(|v| **v)
            .collect();
        let mut fsm = self.fs_manager.lock().await;
        self.file_ids.lock().await.retain(|v| {
            let expired = expired_ids.contains(&**v);

            if expired {
                let handle = fsm.get(**v).map(|f| f.handle());
''')]),
('c21-read-unlocked','C21',[(H+'fs.rs','''    match state.fs_manager.lock().await.get_mut(args.id) {
        Some(local_file) => match local_file.read_all(args.sig).await {
            Ok(contents) => Ok(FileContentsArgs {''','''    let path = match state.fs_manager.lock().await.get(args.id) {
        Some(f) if f.sig() == args.sig && f.permissions().read => {
            Some(f.path().to_path_buf())
        }
        _ => None,
    };
    if let Some(path) = path {
        if let Ok(contents) = tokio::fs::read(path).await {
            return Ok(FileContentsArgs {
                id: args.id,
                contents,
            });
        }
    }
    match state.fs_manager.lock().await.get_mut(args.id) {
        Some(local_file) => match local_file.read_all(args.sig).await {
            Ok(contents) => Ok(FileContentsArgs {''')]),
('c21-kill-relock','C21',[(H+'proc.rs','''    state.procs.lock().await.insert(id, local_proc);
    state.touch_proc_id(id).await;''','''    let procs = &mut state.procs.lock().await;
    procs.insert(id, local_proc);
    if procs.len() > 2 {
        state.evict_procs().await;
    }
    state.touch_proc_id(id).await;''')]),
('c22-oscode','C22',[(S+'msg/content/reply/io/mod.rs','let os_code = error.raw_os_error();','let os_code = error.raw_os_error().filter(|c| *c > 0 && *c < 128);')]),
('c23-early','C23',[('src/utils/delay.rs','if elapsed >= timeout ||','if elapsed + Duration::from_micros(900) >= timeout ||')]),
('c23-cancel-lost','C23',[('src/utils/delay.rs','''            if !should_cancel_2.load(Ordering::Acquire) {
                f();''','''            if start_time.elapsed() >= timeout {
                f();''')]),
('c23-ttl-boundary','C23 C15 C02',[('src/utils/ttl.rs','self.last_touched.elapsed().checked_sub(self.ttl).is_some()','self.last_touched.elapsed() > self.ttl')]),
('c24-key-trim','C24',[('src/cli/builder/crypto.rs','Key::from_slice($key_str.as_ref().unwrap_or(&empty_str).as_bytes())','Key::from_slice($key_str.as_ref().unwrap_or(&empty_str).trim().as_bytes())')]),
('c25-ttl-swap','C25',[('src/cli/builder/mod.rs','.dead_proc_ttl(cmd.dead_proc_ttl)','.dead_proc_ttl(cmd.untouched_proc_ttl)')]),
('c25-client-ttl','C25',[('src/cli/builder/mod.rs','''        .buffer(cmd.opts.internal_buffer_size)
        .packet_ttl(cmd.opts.packet_ttl)
        .build()
        .map_err(|x| {
            io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Invalid client config: {}", x),''','''        .buffer(cmd.opts.internal_buffer_size)
        .packet_ttl(cmd.opts.timeout)
        .build()
        .map_err(|x| {
            io::Error::new(
                io::ErrorKind::InvalidInput,
                format!("Invalid client config: {}", x),''')]),
]
