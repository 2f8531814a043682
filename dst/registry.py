"""property id -> module that holds its scenario class (one id per line)"""
import importlib

TABLE = {
    "C01": "props_book",
    "C02": "props_book",
    "C03": "props_book",
    "C04": "props_book",
    "C05": "props_book",
    "C06": "props_book",
    "C07": "props_book",
    "C08": "props_book",
    "C09": "props_iso",
    "C10": "props_book",
    "C11": "props_book",
    "C12": "props_iso",
    "C13": "props_book",
    "C14": "props_book",
    "C15": "props_book",
    "C16": "props_book",
    "C17": "props_curve",
    "C18": "props_curve",
    "C19": "props_curve",
    "C20": "props_sdk",
    "C21": "props_sdk",
    "C22": "props_sdk",
    "C23": "props_sdk",
    "C24": "props_sdk",
    "C25": "props_sdk",
    "C26": "props_data",
    "C27": "props_data",
    "C28": "props_data",
    "C29": "props_data",
    "C30": "props_graph",
    "C31": "props_graph",
    "C32": "props_arb",
    "C33": "props_arb",
    "C34": "props_cont",
    "C35": "props_cont",
    "C36": "props_view",
}


def get(pid):
    mod = importlib.import_module("dst." + TABLE[pid])
    return getattr(mod, pid)()
