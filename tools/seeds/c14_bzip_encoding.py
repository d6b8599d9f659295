PROPERTY = 'C14'
NEEDS = 'an input file compressed with xz and a non-UTF-8 locale (or a BOM)'
BREAKS = 'xz-compressed inputs are decoded in the locale encoding instead of the requested one'
EDITS = [('udapi/core/files.py', "            fhandle = myopen(filename, 'rt', encoding=self.encoding)\n",
          "            if filename_extension == 'xz':\n                fhandle = myopen(filename, 'rt')\n"
          "            else:\n                fhandle = myopen(filename, 'rt', encoding=self.encoding)\n")]
DEMO = '''
import lzma, os, sys
from udapi.core.files import Files
path = os.path.join(os.environ["SCRATCH"], "a.xz")
with lzma.open(path, "wb") as fh:
    fh.write("\\u010desk\\u00fd".encode("utf-16"))
sys.exit(0 if Files(filenames=[path], encoding="utf-16").next_filehandle().read() == "\\u010desk\\u00fd" else 1)
'''
