#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed checks are those with a checks/<id>.py; everything else in properties.jsonl must have a reason here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = 'abstract interpretation of the type-checked program with symbolic value numbering'
FL = 'flow-sensitive typestate / effect analysis over the type-checked program'
TRUST = ' Trusted: the clang front end and the parse-only stubs for unavailable third-party headers, the models of the standard library in sx/stdmodel.py and sx/maps.py, real arithmetic for floating point. Obligations the abstraction cannot decide are listed as undecided in the evidence and are not claimed.'
CLAIMS = {
 'C01': (VN, 'Closed forms of the three converter functions are extracted and the inverse / derivative / range identities are decided as algebraic identities for all values.'),
 'C02': (VN, 'Setters, observer registration, removal, destructors, move constructors and dependent parameters are interpreted over symbolic states; obligations are identities for every history of the stated shape plus an inductive counter argument for ids.'),
 'C03': (VN, 'Loop summaries with exact offsets (prefix sums) for every number of parameters and blocks; comparators and priors as algebraic identities.'),
 'C05': (VN, 'The coordinate maps of evaluation, region test and sampling are extracted from each wrapper and compared as algebraic identities.'),
 'C06': (VN, 'Every view is read through its own source chain over a symbolic base image; values, sizes, chunks and bounds are identities for every position and size.'),
 'C07': (VN, 'Coordinate policies are decided as identities on a complete period decomposition (six periods either side of the image), paddings for every position.'),
 'C08': (VN, 'Pixel addresses, sizes, tile arithmetic and buffers are extracted and decided for every width, height and position.'),
 'C12': (VN + ' over loop summaries', 'The per-pixel contribution and the visited pixel set of each measurement loop are extracted as sums and compared for every aperture, image and centre.'),
 'C13': (VN + ' and flow-sensitive accumulator typestate', 'The enum, operators, name table and printing loop are decided for every value; accumulation is decided on all paths of every function that handles flags.'),
 'C18': (VN + '; static locksets for the planner and the caches', 'Locksets on every path to each planner call and cache access; plans, buffers, padding, kernel placement, product and read-back extracted from prepare/convolve and compared for every size (transform size split by parity).'),
 'C15': (VN + ' over associative containers as functional maps', 'Comparison, hash, holder, on-demand lookup, task cache and group changes are read as functions of unknown identifiers and of an unknown content of the maps, for every list of sources.'),
 'C16': ('whole-program registration and call-graph analysis over the typed syntax tree; must-analysis of stored properties over all normal exits; symbolic summaries of the task factories', 'Registrations of every plugin, the task each factory hands out for each type (index unknown), what each task stores on every normal exit and under which index, what it reads through its call graph, and cycles of the request graph.'),
 'C19': (VN, 'Range predicates, pruning guards, halves, boxes and quadrants are extracted from an instantiation of both trees and entailed for every point, box, centre and radius.'),
 'C20': ('custom abstract interpretation of the Python sources: symbolic execution of the functions over unknown arguments, loops summarised by one generic iteration, results compared as normal forms (no solver)', 'The settings of each image, the arguments of every loaded image and slice, the contents of groups after splitting and freezing, and the calls of the compatibility functions are read as functions of unknown arguments and compared with the specification for every number of images.'),
 'C21': ('custom abstract interpretation of the Python sources: symbolic execution of the configuration functions over unknown arguments, results compared as normal forms and as polynomial identities (no solver)', 'Parameters of every model kind, registration tables after adding models, priors and columns, the models of the images of nested groups, settings, and the world-coordinate formulas are read off the functions for arguments of every kind.'),
 'C14': ('linear-ownership typestate analysis of unique_ptr along the pipeline, path automata and value numbering', 'Every path of every stage is followed: each owned source or group is handed over, kept or returned exactly once; signals, observers, the prefetcher release order, group selection, merging and the documented drop conditions are decided for all histories. Threads are covered by C17; MultiThreshold deblending by C41.'),
 'C17': ('lockset analysis over the typestate engine, path-fact typestate of the waiting and draining loops', 'The set of locks held is computed at every access, call and wait on every path (RAII guards, reverse locks, upgrades, closures run by workers as separate threads); queue, semaphore, notification and termination protocols are decided on all paths of the thread loops.'),
 'C10': ('lockset analysis, typestate with a ledger of map, list and accounted memory, '+VN[0].lower()+VN[1:], 'The cache is followed on every path with the set of locks held and a ledger of what entered and left each structure; grid, key and rectangle arithmetic are extracted and compared for all positions and tile sizes; every write to a cached tile is found and its mark required.'),
 'C09': (VN + ', exhaustive over the pixel types', 'The class, type, size and FITS codes each table gives for each pixel type are extracted and compared; every cast between tile classes must follow from a test of the same type.'),
 'C11': ('typestate analysis of the status and of the HDU position over all paths, escape analysis of file handles, '+VN[0].lower()+VN[1:], 'Every path through every function that calls the FITS library is followed with the state of each status variable and the HDU the file is positioned at; the rectangle and layer given to each read and write are extracted.'),
 'C25': (VN, 'Operators, hash, clipping and bounding boxes are extracted and decided as identities; extremum folds over any number of pixels.'),
 'C29': (VN, 'Window, clipping, sampled position, kernel weights and taps are extracted from the raster adders for every size, scale and position; the Lanczos weights are closed forms compared with the kernel at five fractions; the frame model is decided for every list of models.'),
 'C28': (VN + ' over loop summaries', 'Cell geometry, collected pixels, estimates, nearest-cell averages, clipped boxes, medians, kernel sums and the assembled model are extracted and compared for every image, cell, box and kernel size.'),
 'C30': (VN + ' over loop summaries', 'The value every accessor and output column shows is extracted as sums, extrema and existence over the pixels of the source and compared with the documented formula for all sources and images.'),
 'C31': (VN, 'Profiles, ring geometry, sample positions and pixel positions are extracted as closed forms of the parameters and compared for all parameter values; ring and sample loops are decided by their step functions and bounds; region managers are decided for every radius.'),
'C23': (VN + '; typestate analysis of the session loop', 'The sorter, the row converter, the registry and the buffered outputs are extracted as closed forms and effects and compared for every arrival order and selection; the part loop of the program is followed over all paths. The table and file writers of Alexandria are modelled by their documentation; the bytes written are not examined.'),
 'C24': (VN + '; declaration/use and dependency matching over all configuration modules', 'Declarations, reads, stores, throws and tables of all configuration modules are extracted and matched by name, type and value; presence is shown on every path. What the consumers of the getters do with a value is not examined (except as decided by other properties); the configuration manager of Alexandria and boost::program_options are modelled by their documentation. Options without a getter of their own are only shown to be read with the declared name and type.'),
 'C27': (VN + '; typestate analysis of acquired library memory over all exits', 'The coordinates handed to and taken from the projection, model positions, Jacobians and cutouts are extracted as closed forms and compared for every coordinate; acquired structures are followed to every exit. Rounding of the conversions and the accuracy of the external projection library are not examined; its two transformations are modelled by their documentation.'),
 'C26': (VN, 'Matrix and geometry identities are decided over the reals for every valuation.'),
}
NA = {
 'C40': 'which pixels are connected depends on image content; the lutz/FoF labelling loop has no static invariant in reach of dataflow or value numbering',
 'C41': 'pixel conservation through deblending is a set equality over run-time pixel lists',
 'C42': 'independence of thread count is a hyperproperty over schedules; C17 decides the lock discipline it rests on',
 'C44': 'convergence of an iterative solver on floating-point data cannot be bounded statically',
 'C04': 'the solution is handed back through buffers of levmar and GSL, which are external and not installed here; whether the parameters last written are the solution depends on the order in which those libraries call back, which no static argument over this source can settle',
 'C22': 'whether an unset member is read before it is written depends on the order in which operations are called on an object, across classes and run-time histories; a rule that every member is set in every constructor would also reject classes in which the property holds, so no exact static check is claimed',
 'C45': 'needs an inductive geometric argument about the recursion, outside dataflow and value numbering',
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS and os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
            t, n = CLAIMS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n + TRUST})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no static check is claimed yet')})
    m = {'version': 1, 'setup_cmd': 'python3 -c "from sx import facts; facts.build_extractor()"', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')
main()
