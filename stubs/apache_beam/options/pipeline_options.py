class PipelineOptions:
    def __init__(self, flags=None, **kwargs):
        self._opts = {"runner": None, "temp_location": None}
        flags = list(flags or [])
        for n, f in enumerate(flags):
            if not f.startswith("--"):
                continue
            if "=" in f:
                k, v = f[2:].split("=", 1)
                self._opts[k] = v
            elif n + 1 < len(flags) and not flags[n + 1].startswith("--"):
                self._opts[f[2:]] = flags[n + 1]
        self._opts.update(kwargs)

    def get_all_options(self):
        return dict(self._opts)
