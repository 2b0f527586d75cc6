"""A simulated disk: what was written, what is durable, and what a crash makes of the difference."""


class DiskFull(OSError):
    pass


class Disk:
    def __init__(self, rng):
        self.rng = rng
        self.names = {}  # directory as processes see it: name -> inode
        self.durable_names = {}
        self.data, self.durable = {}, {}  # inode -> bytes
        self.n = 0
        self.stats = {"disk_lost": 0, "disk_torn": 0, "disk_kept": 0, "disk_rename_lost": 0, "disk_full": 0}

    # -- process side
    def write(self, name, blob, chunk=4096, fault=None, on_chunk=None):
        """Create or truncate ``name``. ``fault``: ('full', fraction): the disk is full after that fraction."""
        i = self.n = self.n + 1
        self.names[name] = i
        self.data[i] = b""
        k = max(1, (len(blob) + chunk - 1) // chunk)
        for j in range(k):
            if on_chunk is not None:
                on_chunk(j, k)
            if fault is not None and fault[0] == "full" and j >= fault[1] * k:
                self.stats["disk_full"] += 1
                raise DiskFull(28, "No space left on device (injected)")
            self.data[i] += blob[j * chunk:(j + 1) * chunk]

    def fsync(self, name):
        i = self.names[name]
        self.durable[i] = self.data[i]

    def sync_dir(self):
        self.durable_names = dict(self.names)

    def rename(self, a, b):
        self.names[b] = self.names.pop(a)

    def unlink(self, name):
        self.names.pop(name, None)

    def read(self, name):
        return self.data[self.names[name]]

    def ls(self):
        return sorted(self.names)

    # -- the machine dies
    def crash(self):
        """Directory changes since the last directory sync survive or not; unsynced data is lost, torn or kept."""
        names = dict(self.durable_names)
        for k in sorted(set(self.names) | set(self.durable_names)):
            if self.names.get(k) != self.durable_names.get(k):
                if self.rng.random() < 0.5:
                    if k in self.names:
                        names[k] = self.names[k]
                    else:
                        names.pop(k, None)
                else:
                    self.stats["disk_rename_lost"] += 1
        data = {}
        for i in sorted(set(names.values())):
            cur, dur = self.data.get(i, b""), self.durable.get(i)
            if dur == cur:
                data[i] = cur
                continue
            u = self.rng.random()
            if u < 0.4:
                data[i] = dur or b""
                self.stats["disk_lost"] += 1
            elif u < 0.8 and len(cur) > 1:
                data[i] = cur[:self.rng.randrange(1, len(cur))]
                self.stats["disk_torn"] += 1
            else:
                data[i] = cur
                self.stats["disk_kept"] += 1
        self.names, self.durable_names = dict(names), dict(names)
        self.data, self.durable = data, dict(data)
