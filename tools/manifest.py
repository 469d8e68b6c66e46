#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when properties or techniques change)."""
import json
T = {
 'C01': ("structured and byte-level fuzzing for panics, overflow, aborts and endless iteration, with overflow and debug assertions on, cases isolated in a supervised process",
         "Crash oracle only; values are judged by the other checks. Checked build (overflow-checks, debug-assertions). Inputs up to some 600 KB."),
 'C02': ("metamorphic fuzzing (same buffer among other surrounding bytes), guard pages on both sides of the buffer, containment of every handed-out slice",
         "Out-of-bounds reads show as a fault at a PROT_NONE page or as a result that changes with foreign bytes; a read that stays in mapped memory and changes nothing is not seen by the quick tier."),
 'C03': ("property-based testing of the search over generated memory images against a reference search", "Any defect really present is accepted where several are."),
 'C04': ("property-based testing of generated and damaged tables against a reference walk, with stateful next/nth/clone histories", "Framing is judged by an independent reference walker."),
 'C05': ("metamorphic testing: each structure decoded alone and inside generated tables, permutations, with malformed neighbours", "Relation only; no model of the fields is trusted."),
 'C06': ("property-based testing of malformed and well-formed structures and tables against a reference that lists each defect really present", "Any defect that is really present may be the one named."),
 'C07': ("property-based testing of string sets and references against the reference string table, exhaustive over reference numbers", "Strings of valid UTF-8 without NUL."),
 'C08': ("exhaustive type numbers and generated raw structures against direct reads of the generated bytes", "Offsets to 300 plus extreme ones; widths 1 to 16 bytes."),
 'C16': ("exhaustive version x length grid and metamorphic growth (higher version, appended bytes) against a presence table", "Presence table written from the specification and the code's documented deviations."),
 'C17': ("exhaustive code enumeration against tables of code, variant and text, in isolation and inside structures", "The tables (in /verif/harness/src/tables*) are trusted; exhaustive over all codes of all enumerations."),
 'C18': ("exhaustive and random bit patterns over the library's and pseudo-random layouts against a reference of the bit views", "Layout descriptions of the library's own bit fields are trusted tables."),
 'C19': ("exhaustive (16 bit and below) and random (wider) raw values against computed quantities and round trips", "Reference arithmetic in u128/u64."),
 'C20': ("stateful testing of iterator histories (next, nth, copy, drop, assign) against one walk from the start; pairs of structures for equality and hash", "One hasher is sampled for hash agreement."),
 'C21': ("differential fuzzing of four builds {std, no std} x {checked, optimised} of the library, transcripts compared", "Same compiler and machine for all builds."),
}
KINDS = {'C09': 'BIOS, system and BIOS language', 'C10': 'baseboard and enclosure', 'C11': 'processor and cache', 'C12': 'port connector and system slot',
         'C13': 'memory array, device, error and mapping', 'C14': 'OEM strings, configuration options, group and event log', 'C15': 'pointing device and battery'}
for k, v in KINDS.items():
    T[k] = (f"property-based testing of generated {v} structures (random, well-formed, byte sweeps) against a reference decoder",
            "The reference decoder in harness/src/model.rs, written from the layouts and independent of the library's reading code, is trusted.")
checks = []
for l in open('properties.jsonl'):
    i = json.loads(l)['id']
    t, note = T[i]
    if i != 'C17':
        t += "; the same oracle under coverage- and comparison-guided mutation of the cases"
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                       technique=t, level="exploration",
                       level_note="Holds for the generated cases, not for all inputs; counts are in the evidence file. " + note))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[],
               notes="No hooks: every check works through the public interface. Fixed defects are in known_findings.txt."),
          open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
