"""Scratch directories and the emulated cloud store used by the checks."""
import contextlib
import os
import shutil
import tempfile


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


@contextlib.contextmanager
def scratch(prefix="vmc-"):
    d = tempfile.mkdtemp(prefix=prefix, dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tree(root):
    """{relative path: text} of all files, plus the set of relative directories."""
    files, dirs = {}, set()
    for base, dn, fn in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dn:
            dirs.add(os.path.normpath(os.path.join(rel, d)))
        for f in fn:
            with open(os.path.join(base, f)) as fh:
                files[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return files, dirs


@contextlib.contextmanager
def cloud(store):
    """A FilesystemCloudpathWrapper on cloudpathlib's local emulation of GCS.

    The emulated buckets live below the directory `store`.
    """
    import cloudpathlib.local
    from cloudpathlib.local import LocalGSClient, LocalGSPath
    from wfa_planning_evaluation_framework.filesystem_wrappers import filesystem_cloudpath_wrapper as m

    old = m.CloudPath
    m.CloudPath = LocalGSPath
    cache = os.path.join(store, ".cache")
    os.makedirs(cache, exist_ok=True)
    os.makedirs(os.path.join(store, "buckets"), exist_ok=True)
    client = LocalGSClient(local_storage_dir=os.path.join(store, "buckets"), local_cache_dir=cache)
    # Times in the emulated store follow a logical clock: with the kernel's coarse
    # clock two quick writes can look simultaneous, which the library refuses.
    clock, upload = [0], client._upload_file

    def logical_upload(local_path, cloud_path):
        out = upload(local_path, cloud_path)
        clock[0] += 1
        os.utime(client._cloud_path_to_local(cloud_path), (clock[0], clock[0]))
        return out

    client._upload_file = logical_upload
    prev = LocalGSClient._default_client
    client.set_as_default_client()
    saved = m.FilesystemCloudpathWrapper.__dict__.get("set_default_client_to_gs_client")
    m.FilesystemCloudpathWrapper.set_default_client_to_gs_client = lambda self: None
    try:
        yield m.FilesystemCloudpathWrapper()
    finally:
        m.CloudPath = old
        LocalGSClient._default_client = prev
        if saved is not None:
            m.FilesystemCloudpathWrapper.set_default_client_to_gs_client = saved
