"""C33: files, directories, paths and the process environment."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["fs." + f for f in "dir_open dir_next dir_close realpath unlink filesize is_dir readfile readfile_str writefile file_exists fileext basename dirname".split()] + ["self.gethostname", "self.getcwd", "self.getenv"]
    exe = lib_driver("osfs", ["os/fs", "os/self"], fs, "osfs.c", wrap="fopen fclose fread fwrite fgetc fseek ftell opendir closedir readdir".split())
    c.harness("files", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C33", body, ["run as root in a scratch directory; files over 2 GB may be refused as a whole"])
