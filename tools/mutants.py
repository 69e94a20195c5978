MUTANTS = [
 ("lock-late", [("commandbase.py", """        self.lock()
        try:
            self.profile.read()
        except FileNotFoundError:
            raise InputError("this profile has not been initialized")
""", """        try:
            self.profile.read()
        except FileNotFoundError:
            raise InputError("this profile has not been initialized")
        self.lock()
""")], ["C21"]),
 ("lock-nouid", [("commandbase.py",  "\"zielen\", str(os.getuid()), self", "\"zielen\", self")], ["C21"]),
 ("lock-prefix", [("commandbase.py", """str(os.getuid()), self.profile.name]""", """str(os.getuid()), self.profile.name.rstrip("1")]""")], ["C21"]),
 ("lock-none-init", [("commands/init.py", """        self.lock()

        try""", """        try""")], ["C21"]),
 ("lock-trash", [("commands/emptytrash.py", """        self.setup_profile()
""", """        self.setup_profile()
        self.lock_socket.close()
""")], ["C21"]),
 ("lock-closed-early", [("commands/sync.py", """        self.setup_profile()
""", """        self.setup_profile()
        self.lock_socket.close()
""")], ["C21"]),
 ("reset-unlock", [("commands/reset.py", """            self.profile.status = "retrieved"
            self.profile.write()
""", """            self.profile.status = "retrieved"
            self.profile.write()
            self.lock_socket.close()
""")], ["C21"]),
 ("name-check", [("commands/init.py", r"^[\w-]+$", r"^[\w-]+")], ["C17"]),
 ("init-nodelete", [("commands/init.py", """            atexit.register(delete_profile)
""", "")], ["C17"]),
 ("overlap-inside", [("commands/init.py", """            if common_path in [local_path, dir_path]:
                overlap""", """            if common_path == local_path:
                overlap""")], ["C17"]),
 ("overlap-commonprefix", [("commands/init.py", """            common_path = os.path.commonpath([local_path, dir_path])
            if""", """            common_path = os.path.commonprefix([local_path, dir_path])
            if""")], ["C17"]),
 ("overlap-nolink", [("commands/init.py", """            local_path = os.path.realpath(profile.local_path)
""", """            local_path = profile.local_path
""")], ["C17"]),
 ("list-skip", [("commands/list.py", """config_file.vals["LocalDir"] or "",""", """os.path.normpath(config_file.vals["LocalDir"] or ""),"""), ("commands/list.py", "from zielen.profile", "import os\nfrom zielen.profile")], ["C32"]),
 ("select-startswith", [("commandbase.py", """                    if os.path.samefile(input_path, os.path.expanduser(
                            config_file.vals["LocalDir"] or "")):""", """                    if input_path.startswith(os.path.expanduser(
                            config_file.vals["LocalDir"] or "@")):""")], ["C32"]),
 ("select-nolink", [("commandbase.py", """                    if os.path.samefile(input_path, os.path.expanduser(
                            config_file.vals["LocalDir"] or "")):""", """                    if input_path == os.path.normpath(os.path.expanduser(
                            config_file.vals["LocalDir"] or "@")):""")], ["C32"]),
 ("remote-missing-sync", [("userdata.py", """            if not os.path.isdir(self.util_dir):
                raise RemoteError("the remote directory could not be found")
            else:
                raise

    def rm_exclude""", """            pass

    def rm_exclude""")], ["C20"]),
]
