FL, UD, PR, FS, CB, DM, SY, RS, IN, ET = ("filelogic.py", "userdata.py", "profile.py", "fstools.py", "containerbase.py", "daemon.py",
                              "commands/sync.py", "commands/reset.py", "commands/init.py", "commands/emptytrash.py")
MUTANTS2 = [
 # prioritizing
 ("prio-noexclude-sep", [(FL, "exclude_path.rstrip(os.sep) + os.sep)):", "exclude_path.rstrip(os.sep))):")], ["C06", "C07", "C08"]),
 ("prio-nosort", [(FL, """        adjusted_priorities.sort(key=lambda x: x[0])
        adjusted_priorities.sort(key=lambda x: x[1], reverse=True)
        prioritized_files""", """        adjusted_priorities.sort(key=lambda x: x[1], reverse=True)
        prioritized_files""")], ["C08", "C05"]),
 ("prio-path-rev", [(FL, """        adjusted_priorities.sort(key=lambda x: x[0])
        adjusted_priorities.sort(key=lambda x: x[1], reverse=True)
        prioritized_dirs""", """        adjusted_priorities.sort(key=lambda x: x[1:], reverse=True)
        prioritized_dirs""")], ["C08", "C07"]),
 ("prio-size", [(FL, "remote_stats[file_path].st_blocks * 512", "remote_stats[file_path].st_size")], ["C06", "C07"]),
 ("prio-local-stats", [(FL, "                dir_size += remote_stats[sub_path].st_blocks * 512", "                dir_size += local_stats[sub_path].st_blocks * 512")], ["C06", "C07"]),
 ("prio-files-ge", [(FL, "if new_remaining_space > 0:", "if new_remaining_space >= 0:")], ["C06", "C07", "C08"]),
 ("prio-subdirs-size", [(FL, """                    subdirs_size += dir_sizes[subpath]""", """                    subdirs_size += dir_sizes[dir_path]""")], ["C06"]),
 ("prio-selected-files", [(FL, "len(contained_files - selected_files) * symlink_size)", "len(contained_files) * symlink_size)")], ["C06"]),
 ("prio-break", [(FL, """                selected_files.add(file_path)
                remaining_space = new_remaining_space""", """                selected_files.add(file_path)
                remaining_space = new_remaining_space
            else:
                break""")], ["C07", "C08"]),
 ("prio-stale-remote", [(FL, "remote_stats = self.remote_dir.scan_paths(dirs=False, memoize=False)", "remote_stats = self.remote_dir.scan_paths(dirs=False)")], ["C06", "C07"]),
 ("prio-limit-dir", [(FL, "if dir_size > self.profile.storage_limit:", "if dir_size > remaining_space:")], ["C07", "C08"]),
 ("excluded-size", [(SY, """            - fm.get_excluded_size(remote_excluded_files))""", """            - 0 * fm.get_excluded_size(remote_excluded_files))""")], ["C06"]),
 ("inflate-after", [(SY, """        if self.profile.inflate_priority:
            self.profile.add_inflated(new_local_files, new_local_dirs)
        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
        self.profile.add_paths(new_file_paths, new_dir_paths)
""", """        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
        self.profile.add_paths(new_file_paths, new_dir_paths)
        if self.profile.inflate_priority:
            self.profile.add_inflated(new_local_files, new_local_dirs)
""")], ["C07", "C08"]),
 ("inflate-dirs", [(PR, """            SELECT COALESCE(MAX(priority), 0) FROM nodes
            WHERE directory = 0;""", """            SELECT COALESCE(MAX(priority), 0) FROM nodes;""")], ["C07", "C08", "C22"]),
 ("inflate-conflict", [(SY, """        if self.profile.inflate_priority:
            self.profile.add_inflated(updated_paths.local, [])
""", "")], ["C07", "C08"]),
 # local copies
 ("local-keep-all", [(FL, "stale_paths.sort(key=lambda x: x.count(os.sep), reverse=True)", "stale_paths.sort()\n        stale_paths = stale_paths[:40]")], ["C06", "C01"]),
 ("local-flag", [(FL, """            self.profile.update_paths(
                self.profile.get_paths(root=update_path).keys(), local=True)""", """            self.profile.update_paths([update_path], local=True)""")], ["C12"]),
 ("local-root-flag", [(FL, "        self.profile.update_paths(self.profile.get_paths().keys(), local=False)\n", "")], ["C12"]),
 # modified / added / deleted
 ("mod-ge", [(FL, """            if mtime > last_sync and self.profile.get_path_info(path)
            and not""", """            if mtime > last_sync + 1 and self.profile.get_path_info(path)
            and not""")], ["C01", "C02", "C04"]),
 ("mod-int", [(PR, "%Y-%m-%dT%H:%M:%S.%f\").replace(", "%Y-%m-%dT%H:%M:%S.%f\").replace(\n            microsecond=0,")], ["C01", "C05", "C28", "C04"]),
 ("mod-noremote-db", [(FL, """        remote_mod_paths |= (
            self.remote_dir.get_paths(
                directory=False, min_lastsync=last_sync).keys()
            & self.remote_dir.scan_paths(dirs=False).keys()
            & self.profile.get_paths(directory=False).keys())
""", "")], ["C02", "C04", "C10"]),
 ("del-trash-local", [(FL, "remote_del_paths & self.profile.get_paths(local=False).keys())", "remote_del_paths & self.profile.get_paths(local=True).keys())")], ["C12"]),
 ("del-keep-remote", [(FL, "(remote_paths - known_paths) | mod_paths.remote))\n        # Files", "(remote_paths - known_paths)))\n        # Files")], ["C02", "C03"]),
 ("del-rev", [(FL, "local_del_paths = known_paths - remote_paths - local_kept_paths", "local_del_paths = known_paths - remote_paths - local_kept_paths - excluded_paths")], ["C09", "C03", "C10"]),
 ("trash-counter", [(FL, """            trash_filenames.add(new_filename)
            new_filenames""", """            new_filenames""")], ["C12", "C02"]),
 ("trash-nomtime", [(FL, """                update_mtime(abs_new_path)
""", "")], ["C13"]),
 ("trash-follow", [(FL, "if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:", "if entry.stat().st_mtime <= cutoff_time:")], ["C13"]),
 ("trash-ctime", [(FL, "if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:", "if entry.stat(follow_symlinks=False).st_ctime <= cutoff_time:")], ["C13"]),
 ("trash-hours", [(PR, "return int(value) * 60 * 60 * 24", "return int(value) * 60 * 60 * 23")], ["C13"]),
 ("rm-excluded-any", [(UD, """                if path not in pattern_file.all_matches(start_path):
                    break""", """                if path not in pattern_file.matches(start_path):
                    break""")], ["C09", "C10"]),
 ("rm-excluded-first", [(UD, "pattern_files.append(ProfileExcludeFile(entry.path))", "pattern_files = [ProfileExcludeFile(entry.path)]")], ["C10"]),
 ("excl-file-old", [(SY, "        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)\n", "")], ["C10", "C09"]),
 # conflicts
 ("conf-swap", [(FL, """            elif local_mtimes[path] < remote_mtimes[path]:
                local_diff""", """            elif int(local_mtimes[path]) < int(remote_mtimes[path]):
                local_diff""")], ["C04"]),
 ("conf-samefile", [(FL, """            elif not is_same_file(
                    os.path.join(self.local_dir.path, path),
                    os.path.join(self.remote_dir.path, path)):""", """            elif local_mtimes[path] != remote_mtimes[path]:""")], ["C04"]),
 ("conf-new", [(SY, "            mod_paths.local | new_paths.local,\n            mod_paths.remote | new_paths.remote)", "            mod_paths.local | new_paths.local,\n            mod_paths.remote)")], ["C04", "C10"]),
 # transfer
 ("copy-nometa", [(FS, "shutil.copy2(", "shutil.copy(")], ["C01", "C05", "C15"]),
 ("copy-follow", [(FS, """                shutil.copy2(
                    source_path, partial_path, follow_symlinks=False)""", """                shutil.copy2(source_path, partial_path)""")], ["C29"]),
 ("partial-direct", [(FS, """                shutil.copy2(
                    source_path, partial_path, follow_symlinks=False)
                os.replace(partial_path, dest_path)""", """                shutil.copy2(
                    source_path, dest_path, follow_symlinks=False)""")], ["C14"]),
 ("unsafe-prefix", [(FS, "if os.path.commonpath([abs_link_dest, parent_path]) == parent_path:", "if abs_link_dest.startswith(parent_path):")], ["C29"]),
 ("unsafe-real", [(FS, """        abs_link_dest = os.path.normpath(
            os.path.join(os.path.dirname(link_path), link_dest))""", """        abs_link_dest = os.path.realpath(link_path)""")], ["C29"]),
 ("symlink-parent", [(FS, "    parent = os.path.dirname(rel_path)\n    while parent:", "    parent = os.path.dirname(rel_path)\n    if parent:")], ["C30"]),
 ("replace-nonatomic", [(FS, """    os.symlink(link_dest, partial_path)
    os.replace(partial_path, path)""", """    os.remove(path)
    os.symlink(link_dest, path)""")], ["C14"]),
 # order of records
 ("order-trash-db", [(SY, """        self.remote_dir.write()
        self.profile.last_sync = time.time()
        self.profile.write()""", """        self.profile.last_sync = time.time()
        self.profile.write()
        self.remote_dir.write()""")], ["C14", "C31"]),
 ("lastsync-start", [(SY, """        fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
""", """        fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
        begun = time.time()
"""), (SY, "self.profile.last_sync = time.time()", "self.profile.last_sync = begun")], ["C05", "C10"]),
 ("commit-early", [(SY, """        # Sync deletions between""", """        self.profile.write()
        # Sync deletions between""")], ["C14"]),
 ("commit-early-r", [(SY, """        # Update the remote directory with modified local files.
""", """        self.remote_dir.write()
        self.profile.write()
""")], ["C14", "C31"]),
 # reset and init
 ("reset-rm-early", [(RS, """            self.profile.status = "retrieved"
            self.profile.write()

        if""", """            self.profile.status = "retrieved"

        if""")], ["C19"]),
 ("reset-nospace", [(RS, "if self.remote_dir.disk_usage() > self.local_dir.space_avail():", "if False:")], ["C18", "C20"]),
 ("reset-excl", [(RS, "        self.remote_dir.rm_exclude_file(self.profile.id)\n", "")], ["C18", "C10"]),
 ("reset-rel", [(RS, """            if not os.path.isabs(link_dest):
                link_dest = os.path.join(os.path.dirname(full_path), link_dest)
""", "")], ["C18", "C29"]),
 ("reset-prefix", [(RS, """            if os.path.commonpath([
                    link_dest,
                    self.remote_dir.safe_path]) == self.remote_dir.safe_path:""", """            if link_dest.startswith(self.remote_dir.safe_path):""")], ["C18", "C29"]),
 ("init-status-late", [(IN, "            self.profile.generate_info(init_options)\n            atexit.register(self.print_interrupt_msg)", "            atexit.register(self.print_interrupt_msg)"), (IN, """        # Copy exclude pattern file to""", """        if self.profile.status is None:
            self.profile.generate_info({"add_remote": self.add_remote})
        # Copy exclude pattern file to""")], ["C16"]),
 ("init-resume-flag", [(IN, "            self.add_remote = self.profile.add_remote\n", "")], ["C16"]),
 ("init-lastsync", [(IN, """        self.profile.last_sync = time.time()
        self.profile.last_adjust""", """        self.profile.last_sync = time.time() + 1
        self.profile.last_adjust""")], ["C15", "C01", "C16"]),
 ("init-excl", [(IN, "        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)\n", "")], ["C10", "C09"]),
 ("init-overwrite", [(FL, """            self.profile.get_paths(directory=True),
            overwrite=True)""", """            self.profile.get_paths(directory=True))""")], ["C15", "C06"]),
 # database
 ("db-rm-collisions", [(PR, """        self._cur.execute(\"\"\"
            DELETE FROM collisions
            WHERE path NOT IN (
                SELECT path
                FROM nodes);
            \"\"\")
        self._update_priority(parents)""", """        self._update_priority(parents)""")], ["C24"]),
 ("db-depth", [(PR, "                WHERE c.ancestor = :path_id\n                AND c.depth = 1)\n            WHERE id = :path_id\n            AND directory = 1;\n            \"\"\", nodes_values)\n\n    def _update_local", "                WHERE c.ancestor = :path_id\n                AND c.depth >= 1)\n            WHERE id = :path_id\n            AND directory = 1;\n            \"\"\", nodes_values)\n\n    def _update_local")], ["C22", "C23"]),
 ("db-inc-parents", [(PR, "            \"\"\", increment_vals)\n        self._update_priority(parents)", "            \"\"\", increment_vals)\n        self._update_priority(p for p in parents if os.sep not in p)")], ["C22", "C23", "C27"]),
 ("db-hash", [(CB, "path_hash.digest()[:8]", "path_hash.digest()[:2]")], ["C24", "C22"]),
 ("db-adjust-dirs", [(PR, "            SET priority = priority * :adjustment;", "            SET priority = priority * :adjustment\n            WHERE directory = 0;")], ["C22", "C23", "C27"]),
 # daemon
 ("dm-cool", [(DM, "and timestamp > past_timestamp + self.COOLDOWN_PERIOD)", "and timestamp > past_timestamp + 2 * self.COOLDOWN_PERIOD)")], ["C27"]),
 ("dm-cool-refresh", [(DM, """                    self._cooldown_files[path] = timestamp

""", """                    pass
                self._cooldown_files[path] = timestamp

""")], ["C27"]),
 ("dm-adjust-missed", [(DM, "adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)", "adjust_constant = 0.5 ** ((time.time() - self.profile.last_adjust) / half_life)")], ["C27"]),
 ("dm-lose", [(DM, """                self.profile.rollback()
                continue""", """                self.profile.rollback()
                deduplicated_paths = []
                continue""")], ["C27"]),
 ("dm-noread", [(DM, """            # that value will get reset.
            self.profile.read()
""", """            # that value will get reset.
""")], ["C27"]),
 ("dm-remote-only", [(DM, "watch_paths = [local_dir, remote_dir]", "watch_paths = [local_dir]")], ["C27"]),
 ("dm-noauto", [(DM, "rec=True, auto_add=True)", "rec=True)")], ["C27"]),
 ("dm-sync-fixed", [(DM, """        last_attempt = self.profile.last_sync
        while True:
            if time.time() >= last_attempt + self.profile.sync_interval:""", """        last_attempt = self.profile.last_sync
        interval = self.profile.sync_interval
        while True:
            if time.time() >= last_attempt + interval:""")], ["C33"]),
 ("dm-sync-start", [(DM, """                cmd = subprocess.Popen(""", """                last_attempt = time.time()
                cmd = subprocess.Popen("""), (DM, """                # If a sync fails, wait the full interval before trying again.
                last_attempt = time.time()
""", "")], ["C33"]),
 ("dm-sync-last", [(DM, """                last_attempt = time.time()
""", """                last_attempt = self.profile.last_sync
""")], ["C33"]),
 ("dm-sync-drop", [(DM, """                last_attempt = time.time()
""", """                last_attempt += self.profile.sync_interval
""")], ["C33"]),
 ("dm-sync-first", [(DM, "        last_attempt = self.profile.last_sync\n", "        last_attempt = time.time()\n")], ["C33"]),
 # room
 ("space-reset-remote", [(RS, "self.remote_dir.disk_usage() > self.local_dir.space_avail()", "self.remote_dir.disk_usage() > self.remote_dir.space_avail()")], ["C34"]),
 ("space-reset-n", [(RS, """        if not self.no_retrieve and self.profile.status != "retrieved":""", """        if self.remote_dir.disk_usage() > self.local_dir.space_avail():
            raise AvailableSpaceError("not enough local space to accommodate remote files")
        if not self.no_retrieve and self.profile.status != "retrieved":""")], ["C34"]),
 ("space-reset-late", [(RS, """            if self.remote_dir.disk_usage() > self.local_dir.space_avail():
                raise AvailableSpaceError(
                    "not enough local space to accommodate remote files")
""", ""), (RS, """            # Retrieve remote files.
""", """            if self.remote_dir.disk_usage() > self.local_dir.space_avail():
                raise AvailableSpaceError(
                    "not enough local space to accommodate remote files")
""")], ["C34"]),
 ("space-init", [(FL, "self.local_dir.disk_usage() > self.remote_dir.space_avail()", "self.local_dir.disk_usage() // 4096 > self.remote_dir.space_avail()")], ["C34"]),
 ("space-init-late", [(FL, """        if self.local_dir.disk_usage() > self.remote_dir.space_avail():
            raise AvailableSpaceError(
                "not enough space in remote to accommodate local files")
""", ""), (FL, """        self._setup_dir(unsafe_symlinks - replaced_paths)
""", """        if self.local_dir.disk_usage() > self.remote_dir.space_avail():
            raise AvailableSpaceError(
                "not enough space in remote to accommodate local files")
        self._setup_dir(unsafe_symlinks - replaced_paths)
""")], ["C34"]),
 ("space-sizes", [("userdata.py", "total_size += stat.st_blocks * 512", "total_size += stat.st_blocks")], ["C34"]),
]
