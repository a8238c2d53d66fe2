"""Digests of everything recorded for each round of a log."""
import contextlib, hashlib, io, os, shutil
import common, record
from common import guarded, scratch


class Plain:
    def __call__(self, v):
        return v


def run(path, verbose=False):
    from MahjongAI.process_xml import process, InvalidGameException
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return process(path, verbose=True) if verbose else process(path)
        except InvalidGameException:
            return "invalid"


def round_digests(res):
    record.RAW_RIVERS = True
    return [hashlib.sha1(repr(r).encode()).hexdigest()[:16]
            for r in record.record_result(res, Plain())]


def process_xml(xml, name="game.log", verbose=False, seconds=60, folder=None):
    """(kind, digests, raw result): kind ok / invalid / error text.

    In a folder of its own, or in the one given; xml None: the file as it is there.
    """
    d = folder or scratch("log")
    try:
        path = os.path.join(d, name)
        if xml is not None:
            with open(path, "w") as f:
                f.write(xml)
        res, err = guarded(run, seconds, path, verbose)
    finally:
        if not folder:
            shutil.rmtree(d, ignore_errors=True)
    if err or res == "invalid":
        return err or "invalid", [], None
    out, err = guarded(round_digests, seconds, res)
    if err:
        return err, [], None
    return "ok", out, res
