M = 1 << 20
SPECS = {
 "C01": {"runs": {
   "free": {"p": {0: 60}, "covers": [1, 2], "alloc": M},
   "field": {"covers": [1, 2], "alloc": M},
   "value": {"p": {0: 16}, "covers": [1, 2], "alloc": M},
   "reader": {"p": {0: 40}, "covers": [1, 2], "alloc": M},
 }},
 "C02": {"runs": {
   "v2": {"p": {0: 2, 1: 2}, "covers": [1]}, "stamped": {"p": {0: 2}, "covers": [1]}, "elf_info": {"covers": [1]}, "raw": {"covers": [1, 9]}, "long": {"covers": [1]},
 }},
 "C03": {"runs": {"names": {"covers": [1, 2]}, 
   "field": {"p": {0: 4, 1: 3, 2: 6}, "covers": [1, 2, 3]}, "free": {"p": {0: 56, 1: 0}, "covers": [1, 2, 3]}, "value": {"p": {0: 20}, "covers": [1, 2]}, "surplus": {"p": {0: 2, 1: 1}, "covers": [2]},
 }},
 "C04": {"runs": {
   "layout": {"p": {0: 2, 1: 1}, "covers": [1, 3, 4]}, "window": {"p": {0: 4}, "covers": [1, 2, 3, 4]}, "small": {"p": {0: 28}, "covers": [1, 3]}, "magic": {"p": {0: 34}, "covers": [2, 3, 4]}, "limit": {"covers": [2, 4]},
 }},
 "C05": {"runs": {"free": {"p": {0: 34}, "covers": [1, 2]}, "two": {"p": {0: 36}, "covers": [1, 2]}, "far": {"covers": [1, 2]}}},
 "C06": {"runs": {"small": {"p": {0: 30}, "covers": [1, 2, 4], "alloc": M}, "window": {"p": {0: 4}, "covers": [2, 3, 4], "alloc": M}, "offsets": {"covers": [2, 3], "alloc": M}}},
 "C08": {"runs": {"conform": {"p": {0: 3}, "covers": [1]}, "tamper": {"covers": [1, 2]}, "big": {"covers": [1]}, "parts": {"covers": [1, 2]}, "count": {"covers": [1]}}},
 "C10": {"runs": {"module": {"p": {0: 4}, "covers": [1, 2]}, "elf": {"p": {0: 5}, "covers": [1, 2]}, "block": {"p": {0: 3}, "covers": [1, 2]}, "end": {"p": {0: 3}, "covers": [1, 2]}}},
 "C11": {"runs": {"splice": {"p": {0: 3}, "covers": [1]}, "legacy": {"covers": [1, 2, 3]}, "faulty": {"covers": [1, 2]}, "refuse": {"p": {0: 3}, "covers": [1, 2]}}},
 "C12": {"runs": {"sizes": {"p": {0: 20000}, "covers": [1, 2, 3]}, "real": {"covers": [1, 2, 3]}, "recalc": {"covers": [1]}, "plain": {"p": {0: 20000}, "covers": [1, 2]}, "edge": {"covers": [1, 2]}}},
 "C07": {"runs": {"window": {"p": {0: 2}, "covers": [1, 2, 3, 4], "alloc": M}, "fields": {"covers": [1, 2, 3, 4], "alloc": M}, "short": {"covers": [1, 2, 3, 4], "alloc": M}, "header": {"covers": [1, 2, 3, 4], "alloc": M}}},
 "C13": {"runs": {"write": {"covers": [1, 2]}, "read": {"covers": [1, 2, 3]}, "absent": {"covers": [1]}}},
 "C14": {"runs": {"select": {"p": {0: 2}, "covers": [1, 2, 3]}}},
 "C15": {"runs": {"conform": {"p": {0: 3}, "covers": [1]}, "overlap": {"covers": [1]}, "place": {"covers": [1, 2]}, "tamper": {"covers": [1, 2]}, "big": {"covers": [1]}}},
 "C16": {"runs": {"v2": {"p": {0: 2}, "covers": [1, 2]}, "stamp": {"p": {0: 2}, "covers": [1, 2]}}},
 "C17": {"runs": {"sign": {"covers": [1, 2]}, "add": {"p": {0: 2}, "covers": [1, 2]}, "limit": {"covers": [1, 2]}}},
 "C18": {"runs": {"ids": {"covers": [1, 2, 3]}, "cross": {"p": {0: 2}, "covers": [1, 2, 3]}, "damaged": {"covers": [1]}}},
 "C19": {"runs": {"keys": {"covers": [1]}, "nokeys": {"covers": [1]}, "damaged": {"covers": [1, 2]}, "certs": {"p": {0: 2}, "covers": [1, 2]}, "p12": {"covers": [1, 2]}, "absent": {"covers": [1, 2]}, "locked": {"covers": [1, 2, 3]}}},
 "C20": {"runs": {"tiny": {"p": {0: 26}, "covers": [1, 2, 3, 4]}, "record": {"covers": [2, 3]}, "wrapper": {"covers": [1, 2]}, "damaged": {"covers": [4, 5]}, "elf": {"covers": [1]}}},
 "C21": {"cli": True, "runs": {"module": {"p": {0: 3}, "covers": [1, 2, 3], "stdout": True}, "elf": {"covers": [1, 2, 3], "stdout": True}, "large": {"covers": [1], "stdout": True}, "refused": {"covers": [1], "stdout": True}}},
 "C22": {"cli": True, "runs": {"module": {"p": {0: 2}, "covers": [1, 2]}, "elf": {"covers": [1, 2]}, "refused": {"covers": [1]}, "crowded": {"covers": [1, 2]}}},
 "C23": {"verify": True, "runs": {"v2": {"covers": [1, 2, 3]}, "stamp": {"covers": [1, 2, 3]}, "many": {"p": {0: 3}, "covers": [1, 2, 3, 4]}, "tamper": {"covers": [1, 2], "alloc": 1 << 29}}},
 "C24": {"verify": True, "runs": {"leaf": {"covers": [1, 2]}, "path": {"p": {0: 3}, "covers": [1, 2, 3]}, "pems": {"covers": [1, 2]}}},
 "C25": {"verify": True, "cli": True, "runs": {"verdict": {"covers": [1, 2]}, "library": {"p": {0: 2}, "covers": [1, 2]}, "unsigned": {"covers": [1]}, "command": {"p": {0: 1}, "covers": [1, 2]}, "report": {"p": {0: 0}, "covers": [1], "stdout": True}}},
 "C26": {"runs": {"tree": {"p": {0: 1}, "covers": [1, 2]}, "algorithm": {"covers": [1]}, "prints": {"p": {0: 3}, "covers": [1]}}},
 "C27": {"verify": True, "cli": True, "runs": {"module": {"p": {0: 1}, "covers": [1]}, "tamper": {"covers": [1, 2]}}},
 "C29": {"verify": True, "cli": True, "runs": {"module": {"covers": [1, 2], "stdout": True}, "elf": {"covers": [1, 2], "stdout": True}, "other": {"covers": [1], "stdout": True}}},
 "C28": {"verify": True, "cli": True, "runs": {"signing": {"p": {0: 40}, "covers": [1, 2, 3]}, "digesting": {"p": {0: 40}, "covers": [1, 2, 3], "stdout": True}, "verifying": {"p": {0: 40}, "covers": [1, 2, 3]}, "informing": {"p": {0: 40}, "covers": [1, 2, 3], "stdout": True}}},
}
BOUNDS = {
 "C01": {"free": "every byte string of up to p0 bytes, block magic at any position or absent", "field": "blocks with v2, stamp, section-list and raw pairs; any 4 or 8 consecutive bytes arbitrary", "value": "one pair of any known id, value of up to p0 arbitrary bytes, arbitrary declared size", "reader": "streams of up to p0 arbitrary bytes, any claimed length and end offset"},
 "C02": {"v2": "up to p1 signers with up to p0 records per list, record data 0..2 arbitrary bytes, arbitrary ids", "stamped": "up to p0 records per list", "elf_info": "0..2 sections, name lengths at boundaries, arbitrary places", "raw": "up to three raw pairs of any id, boundary lengths up to 16 KiB", "long": "one record of every list 127..700 bytes or 4 KiB"},
 "C03": {"names": "names of up to 3 arbitrary bytes", "field": "templates 0..p2, any p0 consecutive bytes arbitrary", "free": "every byte string of up to p0 bytes with the magic anywhere", "value": "value of up to p0 arbitrary bytes", "surplus": "up to p0 arbitrary bytes at the end of any nested container"},
 "C04": {"layout": "content up to p0, comment up to p1 bytes, every kind of block, directory offset off by up to one", "window": "any p0 consecutive bytes of a signed module arbitrary", "small": "every file of 22..p0 bytes with one record signature", "magic": "up to p0 arbitrary bytes before a magic at the directory", "limit": "declared sizes around 16 KiB"},
 "C05": {"free": "every file of up to p0 bytes", "two": "files of up to p0 bytes, two record signatures anywhere", "far": "records around 65,557 bytes before the end, arbitrary comment length"},
 "C06": {"small": "every file of up to p0 bytes (with a record signature anywhere from 22 on)", "window": "any p0 consecutive bytes of a signed module arbitrary", "offsets": "directory offset and both block sizes arbitrary together"},
 "C07": {"window": "three-section ELF of both classes and byte orders, any p0 consecutive bytes of header or section headers arbitrary", "fields": "any one section-header field arbitrary (p0=1: two at a time); alignment of the section to be placed: 0..8, 64, 65535 and above", "short": "every truncation", "header": "e_shoff, e_shnum, e_shstrndx arbitrary together"},
 "C08": {"conform": "content up to p0, directory 2, comment 1, trailing 1 arbitrary bytes; unsigned and signed", "tamper": "two modules with content up to 3, directory up to 2, comment and trailing bytes, all arbitrary", "big": "content of 1 MiB -1/0/+1 bytes, last bytes arbitrary", "parts": "each region alone: ten lengths up to 2 MiB + 1, first and last bytes and the directory offset arbitrary", "count": "nine chunk counts up to 65537"},
 "C10": {"module": "p0 read calls each full, short, interrupted or failing", "elf": "p0 read calls", "block": "p0 read calls", "end": "p0 read calls"},
 "C11": {"splice": "content up to p0 bytes, all bytes arbitrary, blocks of all kinds, signed twice", "legacy": "in-memory histories of one or two signatures, both algorithms", "faulty": "five write calls each full, short, interrupted or failing", "refuse": "any p0 consecutive bytes of the block arbitrary"},
 "C12": {"sizes": "every declared size 4..p0, one or two pairs", "real": "data lengths within 60 of every 4096 multiple up to 20 KiB", "recalc": "blocks of all kinds, one pair added in front or behind, or all removed", "plain": "every declared size 4..p0, one or two pairs", "edge": "every data length within 28 of the limit"},
 "C13": {"write": "both classes and byte orders, up to five sections, signature section at any index, all fields of a section arbitrary; re-signed once", "read": "offset or size of the signature section arbitrary", "absent": "similar names"},
 "C14": {"select": "lists of up to p0 names out of ten, two sections at arbitrary places"},
 "C15": {"conform": "section data up to p0 and 2 arbitrary bytes", "overlap": "every overlap of a second section of up to 4 bytes with a section of 4 arbitrary bytes", "place": "section offset and/or size arbitrary", "tamper": "two pairs of sections of up to 3 and 2 bytes", "big": "section of 1 MiB -1/0/+1 bytes"},
 "C16": {"v2": "up to p0 digests and chain certificates, arbitrary bytes, any algorithm id", "stamp": "up to p0 digests, every front end"},
 "C17": {"sign": "kind x algorithms x time x padding", "add": "up to p0 existing pairs of six kinds", "limit": "existing pairs of ten sizes around multiples of 4096 and the limit"},
 "C18": {"ids": "all pairs of 32-bit ids", "cross": "messages up to p0 bytes, keys with two arbitrary bytes, any algorithm id", "damaged": "any one byte of signature or key changed, added or removed"},
 "C19": {"keys": "keys with two arbitrary bytes in every encoding", "nokeys": "unsupported kinds", "damaged": "any one byte of a DER key arbitrary", "certs": "up to p0 PEM blocks of every kind", "p12": "certificate lists", "absent": "missing and empty files", "locked": "fixed encrypted keys, three passwords"},
 "C20": {"tiny": "every file of up to p0 bytes", "record": "record behind up to 5 and before up to 3 arbitrary bytes, one damaged byte", "wrapper": "modules with content up to 4 bytes, signed or not", "damaged": "any two neighbouring bytes of the block arbitrary", "elf": "both classes and byte orders"},
 "C21": {"module": "content up to p0 bytes, every option combination", "elf": "both classes and byte orders, five section lists, one overlapping", "large": "content of eight lengths, from 64 KiB - 1 to 1 MiB + 1", "refused": "every unrecognised file of up to 25 bytes"},
 "C22": {"module": "content up to p0 bytes, signed or not, every credential kind, three outputs", "elf": "both classes and byte orders, signed or not", "refused": "every failure class", "crowded": "certificates of sizes around the limit"},
 "C23": {"v2": "one signer: up to 2 digests and 2 signatures, each part right or wrong", "stamp": "the same for stamps", "many": "up to p0 signers in up to two pairs", "tamper": "any one byte of a valid block other than lengths; in the certificate one bit of 0x01/0x20/0x80"},
 "C24": {"leaf": "all combinations of leaf defects and root sets", "path": "up to p0 intermediates of eight kinds", "pems": "four PEM tags, damaged or not"},
 "C25": {"verdict": "all outcome combinations", "library": "content up to p0 bytes, nine states each of v2 signature and stamp", "unsigned": "four kinds of modules without signature", "command": "content up to p0 bytes, nine states each, four kinds of root", "report": "nine states each"},
 "C26": {"tree": "one pair of every kind with up to p0 records per list, arbitrary ids and bytes; named and positional formats", "algorithm": "every 32-bit id", "prints": "certificates of up to p0 arbitrary bytes"},
 "C27": {"module": "content up to p0, directory, comment and trailing up to 1 arbitrary bytes; PKCS#12 credentials, with or without intermediate and stamp, signed once or twice", "tamper": "2+2 arbitrary bytes; any one byte changed, inserted or removed outside the block; block moved to any module with content and directory up to 3 bytes"},
 "C29": {"module": "six kinds of block, absent, intact or with a damaged size, a look-alike block at any of six places, 3 arbitrary bytes", "elf": "the same over both classes and byte orders, three places", "other": "files of up to 3 arbitrary bytes around a complete block or none"},
 "C28": {"signing": "one fault (error, interruption or one-byte transfer) in any one of the first p0+1 opens, reads or writes; module or ELF with 1 arbitrary byte, three outputs", "digesting": "the same over print and dump", "verifying": "the same over opens and reads, module intact or tampered", "informing": "the same over opens and reads, three modules"},
}
THOROUGH = {
 "C01": {"free": {0: 64}, "value": {0: 20}, "reader": {0: 44}}, "C03": {"free": {0: 60}, "value": {0: 24}, "surplus": {0: 3}}, "C04": {"layout": {0: 3, 1: 2}, "small": {0: 30}, "magic": {0: 40}}, "C05": {"free": {0: 40}, "two": {0: 44}},
 "C06": {"small": {0: 34}}, "C07": {"fields": {0: 1}}, "C08": {"conform": {0: 5}}, "C10": {"module": {0: 5}, "elf": {0: 6}, "block": {0: 4}, "end": {0: 4}}, "C11": {"splice": {0: 5}, "refuse": {0: 4}}, "C12": {"sizes": {0: 65535}}, "C14": {"select": {0: 3}}, "C15": {"conform": {0: 5}},
 "C16": {"v2": {0: 3}, "stamp": {0: 3}}, "C17": {"add": {0: 3}}, "C18": {"cross": {0: 3}}, "C19": {"certs": {0: 3}}, "C20": {"tiny": {0: 30}}, "C21": {"module": {0: 5}}, "C22": {"module": {0: 3}}, "C23": {"many": {0: 4}}, "C24": {"path": {0: 4}}, "C25": {"library": {0: 3}, "command": {0: 2}, "report": {0: 1}}, "C26": {"tree": {0: 2}, "prints": {0: 5}}, "C27": {"module": {0: 3}},
}
for _c, _d in BOUNDS.items():
    assert set(_d) == set(SPECS[_c]["runs"]), _c
    for _e, _b in _d.items():
        _o = SPECS[_c]["runs"][_e]; _o["bounds"] = _b; _t = THOROUGH.get(_c, {}).get(_e)
        if _t: _o["thorough"] = {"p": _t, "time": 3600}
