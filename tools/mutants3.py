FL, UD, PR, FS, CB, DM, SY, RS, IN, ET, LS, CM, UT = (
    "filelogic.py", "userdata.py", "profile.py", "fstools.py", "containerbase.py", "daemon.py", "commands/sync.py",
    "commands/reset.py", "commands/init.py", "commands/emptytrash.py", "commands/list.py", "commandbase.py", "utils.py")
MUTANTS3 = [
 # config
 ("cfg-unit-case", [(PR, 'if unit.lower() == "ib" or not unit:', 'if unit == "iB" or not unit:')], ["C25"]),
 ("cfg-prefix-case", [(PR, 'elif prefix.lower() == "g":', 'else:'), (PR, 'if prefix.lower() == "k":', 'if prefix == "K":')], ["C25"]),
 ("cfg-rpartition", [(CB, """                        key, value = line.partition(self.SEPARATOR)[::2]
                        raw_vals""", """                        key, value = line.rpartition(self.SEPARATOR)[::2]
                        raw_vals""")], ["C25", "C26"]),
 ("cfg-quotes", [(CB, "raw_vals[key.strip()] = value.strip()", "raw_vals[key.strip()] = value.strip().strip('\"')")], ["C26", "C25"]),
 ("cfg-comment", [(CB, """                        raw_vals[key.strip()] = value.strip()""", """                        raw_vals[key.strip()] = value.split("#")[0].strip()""")], ["C26", "C25"]),
 ("cfg-write-lines", [(CB, """                    new_line = line
""", """                    new_line = line.lstrip()
""")], ["C26"]),
 ("cfg-write-last", [(CB, """                        if key in self.raw_vals:
""", """                        if key in self.raw_vals and not value.strip():
""")], ["C26"]),
 ("cfg-halflife-min", [(PR, 'int(self._cfg_file.vals["PriorityHalfLife"]) * 60**2', 'int(self._cfg_file.vals["PriorityHalfLife"]) * 60')], ["C25", "C27"]),
 ("cfg-unrecognized", [(PR, "unrecognized_keys = self.raw_vals.keys() - set(self._all_keys)", "unrecognized_keys = {\n            key for key in self.raw_vals if key.lower() not in [\n                x.lower() for x in self._all_keys]}")], ["C25"]),
 ("cfg-exc-comments", [(PR, """            elif infile:
                with open(infile) as infile:
                    for line in infile:
                        outfile.write(line)""", """            elif infile:
                with open(infile) as infile:
                    for line in infile:
                        if line.strip():
                            outfile.write(line)""")], ["C26"]),
 ("cfg-exc-strip", [(PR, """            elif infile:
                with open(infile) as infile:
                    for line in infile:
                        outfile.write(line)""", """            elif infile:
                with open(infile) as infile:
                    for line in infile:
                        outfile.write(line.strip() + "\\n")""")], ["C26"]),
 ("cfg-prompt-nocheck", [(PR, """                error_message = self.check_value(key, user_input)
                if error_message:
                    print(""", """                error_message = self.check_value(key, user_input)
                if error_message and not user_input:
                    print(""")], ["C26"]),
 ("cfg-home", [(PR, """        return os.path.normpath(
            os.path.expanduser(self._cfg_file.vals["RemoteDir"]))""", """        return os.path.realpath(
            os.path.expanduser(self._cfg_file.vals["RemoteDir"]))""")], ["C25", "C26", "C32"]),
 ("pat-comment", [(PR, """comment_regex = re.compile(r"^\\s*#")""", """comment_regex = re.compile(r"#")""")], ["C11"]),
 ("pat-strip", [(PR, 'glob.escape(start_path), line.lstrip("/"))', 'start_path, line.lstrip("/"))')], ["C11"]),
 ("pat-cache", [(PR, """        self._cfg_file.check_all()
        self._exclude_file.reset()""", """        self._cfg_file.check_all()""")], ["C27"]),
 # lock
 ("lock-case", [(CM, """"zielen", str(os.getuid()), self.profile.name])""", """"zielen", str(os.getuid()), self.profile.name.lower()])""")], ["C21"]),
 ("lock-short", [(CM, """"zielen", str(os.getuid()), self.profile.name])""", """"zielen", str(os.getuid()), self.profile.name[:12]])""")], ["C21"]),
 ("sel-prefix", [(CM, "        if input_str in self.profiles:\n            return self.profiles[input_str]", "        if input_str.rstrip('/') in self.profiles:\n            return self.profiles[input_str.rstrip('/')]")], ["C32"]),
 ("util-isdir", [(RS, """            if not os.path.isdir(self.remote_dir.util_dir):
                raise RemoteError("the remote directory could not be found")

            # Check""", """            if not os.path.isdir(self.remote_dir.path):
                raise RemoteError("the remote directory could not be found")

            # Check""")], ["C20"]),
 # errors
 ("err-perm", [(FS, """        except PermissionError:
            raise FileTransferError("permission denied: {0}".format(
                os.path.relpath(source_path, source)))
""", """        except PermissionError:
            print("permission denied: {0}".format(
                os.path.relpath(source_path, source)), file=sys.stderr)
            continue
""")], ["C31"]),
 ("err-rm", [(FL, """            except FileNotFoundError:
                # This could happen if a previous sync was interrupted.
                pass

        self.profile.rm_paths(paths)""", """            except OSError:
                # This could happen if a previous sync was interrupted.
                pass

        self.profile.rm_paths(paths)""")], ["C31"]),
 ("err-trash", [(FL, """                update_mtime(abs_new_path)
            except FileNotFoundError:""", """                update_mtime(abs_new_path)
            except OSError:""")], ["C31"]),
 ("rep-rm", [(FL, """            except FileNotFoundError:
                # This could happen if a previous sync was interrupted.
                pass

        self.profile.rm_paths(paths)""", """            except ProcessLookupError:
                # This could happen if a previous sync was interrupted.
                pass

        self.profile.rm_paths(paths)""")], ["C14"]),
 ("rep-trash", [(FL, """                update_mtime(abs_new_path)
            except FileNotFoundError:""", """                update_mtime(abs_new_path)
            except ProcessLookupError:""")], ["C14"]),
 ("rep-trash-mkdir", [(FL, """            os.mkdir(self.remote_dir.trash_dir)
        except FileExistsError:
            pass
        except FileNotFoundError:""", """            os.makedirs(self.remote_dir.trash_dir)
        except FileExistsError:
            pass
        except FileNotFoundError:""")], ["C20"]),
 # database
 ("db-decay-files", [(PR, """            SET priority = priority * :adjustment;""", """            SET priority = priority * :adjustment
            WHERE directory = 0;""")], ["C23", "C27"]),
 ("db-local-max", [(PR, "SELECT COALESCE(MIN(n.local), 0)", "SELECT COALESCE(MAX(n.local), 0)")], ["C23"]),
 ("db-prio-parent", [(PR, """        nodes_values = []
        for path in get_path_ancestry(paths):
            path_id = self._find_path_id(path)
            nodes_values.append({"path_id": path_id})

        self._cur.executemany(\"\"\"\\
            UPDATE nodes
            SET priority = (""", """        nodes_values = []
        for path in paths:
            path_id = self._find_path_id(path)
            nodes_values.append({"path_id": path_id})

        self._cur.executemany(\"\"\"\\
            UPDATE nodes
            SET priority = (""")], ["C23", "C07"]),
 ("db-prio-order", [(UT, "output_paths, key=lambda x: x.count(os.sep), reverse=True))", "output_paths, key=len, reverse=True))")], ["C23"]),
 ("db-salt-ignore", [(CB, """            INSERT OR REPLACE INTO collisions (path, salt)
            SELECT :path, gen_salt()""", """            INSERT OR IGNORE INTO collisions (path, salt)
            SELECT :path, gen_salt()""")], ["C24"]),
 ("db-rm-like", [(UD, """            WHERE id IN (
                SELECT n.id
                FROM nodes AS n
                JOIN closure AS c
                ON (n.id = c.descendant)
                WHERE c.ancestor = :path_id);
            \"\"\", rm_vals)""", """            WHERE id IN (
                SELECT n.id
                FROM nodes AS n
                JOIN closure AS c
                ON (n.id = c.descendant)
                WHERE c.ancestor = :path_id
                AND c.depth < 3);
            \"\"\", rm_vals)""")], ["C22", "C03"]),
 ("db-min-ge", [(UD, "n.lastsync > :min_lastsync);", "n.lastsync >= :min_lastsync);")], ["C22"]),
 ("db-array", [(PR, """            for array in iter(self._cur.fetchmany, [])
            for path, directory, priority, local in array}""", """            for path, directory, priority, local in self._cur.fetchmany(200)}""")], ["C22"]),
 # daemon
 ("dm-set", [(DM, """                self.profile.increment(
                    deduplicated_paths, self.INCREMENT_AMOUNT)""", """                self.profile.increment(
                    set(deduplicated_paths), self.INCREMENT_AMOUNT)""")], ["C27"]),
 ("dm-catchup", [(DM, "self.profile.last_adjust = time.time()", "self.profile.last_adjust += self.ADJUST_INTERVAL")], ["C27"]),
 ("dm-elapsed", [(DM, "self.ADJUST_INTERVAL / half_life)", "(time.time() - self.profile.last_adjust) / half_life)")], ["C27"]),
 ("dm-halflife", [(DM, "adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)", "adjust_constant = 1 - 0.5 * (self.ADJUST_INTERVAL / half_life)")], ["C27"]),
 ("dm-relpath", [(DM, """                    if os.path.commonpath([
                            event.pathname, watch_path]) == watch_path:""", """                    if event.pathname.startswith(watch_path):""")], ["C27"]),
 ("dm-sync-path", [(DM, """["zielen", "--debug", "sync", self.profile_input],""", """["zielen", "--debug", "sync", self.profile.local_path],""")], ["C33"]),
 ("dm-stderr", [(DM, """                for line in cmd.stderr:
                    if line:
                        print(line, file=sys.stderr, end="")
                cmd.wait()""", """                cmd.wait()
                for line in cmd.stderr:
                    if line:
                        print(line, file=sys.stderr, end="")""")], ["C33"]),
 ("dm-check", [(DM, """                cmd.wait()
                sys.stderr.flush()""", """                if cmd.wait():
                    raise subprocess.CalledProcessError(
                        cmd.returncode, cmd.args)
                sys.stderr.flush()""")], ["C33"]),
 ("dm-now", [(DM, "last_attempt = self.profile.last_sync\n", "last_attempt = time.time()\n")], ["C33"]),
 # links, excludes
 ("link-root", [(FS, """            os.path.join(os.path.dirname(link_path), link_dest))
        if""", """            os.path.join(parent_path, link_dest))
        if""")], ["C29", "C15", "C30"]),
 ("excl-init-top", [(FL, """                    self.profile.all_exclude_matches(self.local_dir.path)
                    | unsafe_symlinks),
                message="Moving""", """                    self.profile.exclude_matches(self.local_dir.path)
                    | unsafe_symlinks),
                message="Moving""")], ["C09", "C15"]),
 ("excl-new-top", [(FL, """        new_local_paths -= self.profile.all_exclude_matches(
            self.local_dir.path)""", """        new_local_paths -= self.profile.exclude_matches(
            self.local_dir.path)""")], ["C09"]),
 ("excl-stale", [(FL, """        all_paths = (self.local_dir.scan_paths(
            exclude=self.profile.all_exclude_matches(self.local_dir.path),
            memoize=False)""", """        all_paths = (self.local_dir.scan_paths(
            memoize=False)""")], ["C09", "C10"]),
 ("excl-reset-file", [(RS, "        self.remote_dir.rm_exclude_file(self.profile.id)\n", "")], ["C10", "C18"]),
 ("excl-file-resync", [(SY, "        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)\n\n        # Scan", "        # Scan")], ["C10", "C09"]),
 ("excl-file-init", [(IN, "        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)\n", "")], ["C10"]),
 # copying
 ("copy-nomode", [(FS, """                shutil.copy2(
                    source_path, partial_path, follow_symlinks=False)""", """                shutil.copyfile(
                    source_path, partial_path, follow_symlinks=False)
                stats = os.lstat(source_path)
                os.utime(partial_path, ns=(stats.st_atime_ns, stats.st_mtime_ns), follow_symlinks=False)""")], ["C01", "C15", "C18"]),
 ("copy-coarse", [(FS, """                os.replace(partial_path, dest_path)
        except""", """                stats = os.lstat(source_path)
                os.utime(partial_path, (stats.st_atime, int(stats.st_mtime)), follow_symlinks=False)
                os.replace(partial_path, dest_path)
        except""")], ["C01", "C04"]),
 ("copy-skip-size", [(FS, """        try:
            if (os.path.isdir(source_path)
                    and not os.path.islink(source_path)):
                os.makedirs(dest_path""", """        if (os.path.isfile(dest_path) and not os.path.islink(dest_path)
                and os.lstat(source_path).st_size == os.lstat(dest_path).st_size
                and int(os.lstat(source_path).st_mtime) == int(os.lstat(dest_path).st_mtime)):
            continue
        try:
            if (os.path.isdir(source_path)
                    and not os.path.islink(source_path)):
                os.makedirs(dest_path""")], ["C01", "C08"]),
 ("stale-parents", [(FL, "            if not (self.profile.get_paths(path).keys() & all_retained_paths):", "            if path not in retained_paths:")], ["C01", "C05"]),
 ("del-sub", [(FL, """            sub_paths = set(self.profile.get_paths(root=path).keys())
            sub_paths.remove(path)
            remote_del_paths -= sub_paths""", """            sub_paths = {
                sub_path for sub_path in remote_del_paths
                if sub_path.startswith(path)}
            sub_paths.remove(path)
            remote_del_paths -= sub_paths""")], ["C03"]),
 ("conf-ext", [(UT, 'return "{0}_{1}{2}{3}".format(name, keyword, timestamp, extension)', 'return "{0}_{1}{2}{3}".format(\n        name.replace("conflict", ""), keyword, timestamp, extension)')], ["C04", "C02"]),
 ("trash-clean-use", [(SY, "        if self.profile.cleanup_period is not None:", "        if self.profile.cleanup_period is not None and self.profile.use_trash:")], ["C13"]),
 ("trash-clean-zero", [(SY, "        if self.profile.cleanup_period is not None:", "        if self.profile.cleanup_period:")], ["C13"]),
 ("time-seconds", [(PR, """        return datetime.datetime.utcfromtimestamp(
            epoch).strftime("%Y-%m-%dT%H:%M:%S.%f")""", """        return datetime.datetime.utcfromtimestamp(
            int(epoch)).strftime("%Y-%m-%dT%H:%M:%S.%f")""")], ["C28"]),
 ("init-lastadjust", [(IN, "        self.profile.last_adjust = time.time()\n", "        self.profile.last_adjust = 0\n")], ["C27"]),
 ("reset-partial-keep", [(RS, """        if self.profile.status == "partial" and not fm.get_placeholders():""", """        if self.profile.status == "partial":""")], ["C19", "C16"]),
 ("reset-no-status", [(RS, """            self.profile.status = "resetting"
            self.profile.write()

            # Retrieve""", """            # Retrieve""")], ["C19"]),
 ("prune-empty", [(FL, """        for stale_path in stale_paths:
            full_stale_path""", """        for stale_path in stale_paths:
            if stale_path.startswith("."):
                continue
            full_stale_path""")], ["C06", "C07"]),
]
