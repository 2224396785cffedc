#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'TLA+ specification, model checked with TLC; implementation traces replayed from / validated against it by TLC'
NOTE = {
 'P01': 'All interleavings of the modelled registry (2-3 threads); on the real code all schedules with bounded preemption for 2-3 threads under a controlled scheduler, free-running threads under ThreadSanitizer, and random label sequences. Assumes pthread primitives behave.',
 'P02': 'Odometer model checked for all small shapes/strides; real MultiIndex/ViewIndex visits compared with the specification for all 2-operand configurations with extents<=3, strides<=3, ndim<=2, and random dense (<=8 dims, <=5 operands), binned and view configurations; ASan/UBSan.',
 'P03': 'All operation sequences over small shapes from TLC plus exhaustive pairs and random programs; results and refusals compared with the shape algebra in Shapes.tla.',
 'P04': 'Every transition of the bounded dictionary model replayed on the real Dict, plus random histories with live iterators under ASan.',
 'P05': 'Every transition of the bounded element array model replayed, plus random histories for several element types under ASan/UBSan.',
 'P06': 'Propagation rules checked as a model (exact rationals); real ValueAndVariance operators on a grid of quarter-integers for all operator x operand-kind x type combinations, integer maths on 64-bit integers of any size against exact big-integer arithmetic, sequence tests on all short sequences.',
 'P07': 'All chains of <=3 of 15 primitive transforms model checked; each replayed through the core operators and through variables, plus random chains, arrays with broadcasting, inverses, comparisons, units and component access.',
 'P09': 'Heap-of-buffers model of variables and views (Views.tla), frame conditions model checked on all programs of <=2 (thorough 3) chained views and one write; the same programs plus random histories run on real variables, every live handle compared with the specification after each step.',
 'P10': 'Element-wise operations of the same heap model: all programs of one view and two operations, plus random histories with overlapping, broadcast, transposed and uncertain operands of seven element types; refusals must leave every handle unchanged.',
 'P11': 'Reduction and scan laws model checked for all sequences of <=5 (thorough 7) values incl. NaN and infinities; real sum/mean/nan*/min/max/all/any/cumulative sums of variables, data arrays with masks, binned data and inputs above the parallel chunk size judged against the declarative definition, ASan/UBSan.',
 'P12': 'Round-trip laws of concat/slice/fold/flatten/transpose model checked on all small data arrays with coords and masks of every shape that fits (edges included); real concat, fold, flatten, transpose, squeeze and rename of random variables, data arrays and datasets (dense and binned, strided layouts) compared with the specification, plus the variable-level operations on the heap model.',
 'P14': 'Slicing laws model checked on all small data arrays; real positional (point, range, stride) and label-based slices of random variables, data arrays and datasets with ascending, descending, duplicate, edge and point coords, labels on and between the values, compared with the specification.',
 'P16': 'Laws of binning (each event in exactly its bin, two steps = one step, rebinning, joining) model checked on all small tables and key pairs; real bin/group of tables and binned arrays with any mix of edges, groups, erased dims, per-bin edges, masks and chains of re-binning compared event by event with the specification, plus >16384 output bins (two stages) and inputs beyond the threading threshold.',
 'P18': 'Laws of histograms (histogram of bins = histogram of events, coarser edges = rebinned finer ones, contents preserved, lookup finds the counting bin) model checked on all small tables and edges; real histogram (dense and binned), rebin, map/lookup_previous and bins.scale with per-row edges, masks, time points, variances, transposed layouts and long inputs are judged by HistTrace with exact integers.',
 'P19': 'Laws of grouping (each slice in exactly one group, sorted distinct groups, fine groups add up to coarse ones) model checked for all short keys and edges; real groupby sum/nansum/mean/min/max/nanmin/nanmax/all/any/concat by value and by bins, of dense and binned arrays and datasets, with all key types, NaN, runs, masks and layouts are judged by GroupTrace, and long inputs run in parallel.',
 'P15': 'Laws of labelled arithmetic (union of coords and masks, clash refused, alignment, failed in-place operations change nothing) model checked for all small operands; real binary, comparison, logical and in-place operations of data arrays, datasets, variables, their slices and aliases, dense and binned, are judged by LabelledTrace on the full content before and after.',
 'P13': 'Metadata heap model (objects as structures of pointers to buffers; shallow copies, slices, set slices, coords/masks/attributes dictionaries, alignment and read-only flags) model checked on all short histories; random histories on real data arrays and datasets with every live handle compared with the specification after each step, refusals included.',
 'P20': 'Laws of sorting and filtering (permutation, monotonic key, stable selection, ranges) model checked for all short keys; real sort of variables, data arrays and datasets, extract and extract_ranges, issorted/allsorted/islinspace with NaN, strings, duplicates, strided and transposed keys, binned data and long parallel inputs are judged by RecordsTrace.',
 'P21': 'Equivalence laws and sensitivity to every single difference model checked over all small variables and arrays; real ==, !=, identical, isclose-free comparison and copies of variables, data arrays, datasets and binned data with one mutation at a time (value, variance, unit, label, dtype, alignment, mask, coord, bin) are judged by EqualityTrace, as is independence of deep and shallow copies under later writes.',
 'P22': 'Rule evaluation with usage counters model checked for all programs over 3 (thorough: 4) names; all of them plus random programs of up to 7 names run through the unmodified Python code with stand-ins for the compiled classes (symbolic values), every function call and result compared with the declarative meaning.',
}
NA = {
 'P08': None, 'P09': None, 'P10': None, 'P11': None, 'P12': None, 'P13': None, 'P14': None, 'P15': None,
 'P16': None, 'P17': None, 'P20': None, 'P21': None,
 'P23': 'Numeric accuracy of transcendental functions over the reals has no finite-state content; TLA+ has no floating point, so a specification could neither define nor compare the values.',
 'P24': 'File round trips go through h5py and the compiled Python extension, neither of which exists in this sandbox (no h5py, no pybind11), so no execution can be bound to a specification.',
}
checks = []
for i in range(1, 25):
    p = f'P{i:02d}'
    if os.path.exists(f'{V}/checks/{p}.py') and p in NOTE:
        checks.append(dict(property=p, quick_cmd=f'bin/check {p} quick', thorough_cmd=f'bin/check {p} thorough',
                           evidence_file=f'evidence/{p}.json', technique=MC, level='model_checking', level_note=NOTE[p]))
        NA.pop(p, None)
na = [dict(property=p, reason=r or 'Check not finished yet; see DESIGN.md for the plan.') for p, r in sorted(NA.items())]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Checks build the libraries they need from /repo/lib into /verif/.build (ignored by git) with the units shim in /verif/shim. No hooks in /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
