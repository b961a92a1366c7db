# limits and choices per property, for DESIGN.md
NOTES = {
 'C01': 'Exact over the reals; what the converters do at the ends of their ranges in floating point is left out.',
 'C02': 'Observers registered by code outside the repository are not seen. Destruction order of objects held by the configuration is not modelled.',
 'C03': 'The engines themselves (GSL, levmar) are taken at their documentation: the callbacks they receive are decided.',
 'C05': 'The models that wrap others are decided for any decorated model.',
 'C06': 'Views are decided one at a time over an unknown underlying image; compositions follow.',
 'C07': 'Policies with loops (periodic wrap) are decided on a complete decomposition of six periods either side of the image.',
 'C08': 'Aliasing is decided for the classes of the repository, not for raw pointers handed to callers.',
 'C09': 'Values that do not fit the target type when converting pixel by pixel are outside the property.',
 'C10': 'Not ruled out: a tile which a writer obtained is evicted by another thread and loaded again before the writer has written its pixel. The library relies on one writer per region; the rule says that the marks, saves, books and locks are right for every tile that is in the cache. Deadlock between the image mutexes and the cache mutex is excluded by the order rule.',
 'C11': 'The library (cfitsio) is taken at its documentation: functions return at once when given a failed status. An error while closing a file is excepted in the statement: the destructors cannot report it.',
 'C12': 'Areas and thresholds are compared over the reals.',
 'C13': 'Which quantity raises which flag is C12, C16 and C30.',
 'C14': 'Messages handed to observers outside the repository are considered delivered. Which sources belong together is outside.',
 'C15': 'Hash quality is not judged.',
 'C16': 'Properties set by name at run time through Python configuration are followed through the registries only.',
 'C17': 'Lock freedom of third-party objects is their documentation. Liveness (that a condition comes true) is not decided; that a waiting thread waits under the right lock in a loop on the right condition, and that whoever changes the condition notifies, is.',
 'C18': 'FFTW plans are taken to compute the transform of their documentation.',
 'C19': 'Distances over the reals.',
 'C20': 'File access (astropy, the FitsFile binding) is a model: any headers, any HDUs.',
 'C21': 'The compiled expressions of astropy/pyston are outside.',
 'C25': '', 'C26': '',
 'C23': 'Table, Row and FitsWriter are modelled by their documentation. Empty groups never reach the Sorter, because Deblending drops them (C15). When the first part of an LDAC catalogue is empty, the override flag stays unset; the rule write only asks that the first rows written override.',
 'C24': 'The table option -> getter is the specification (checks/c24.py SPEC), written from the help texts. Names of options built from wildcards (flag-image-*) are matched by family, so a test for another member of the family is taken for the right one.',
 'C27': 'wcsp2s, wcss2p, wcssub and wcspih are modelled by their documentation (they transform all axes; a failed one leaves coordinates unset). The Python helpers pixel_to_world_coordinate are decided by C21. That the crpix of an image is not moved twice is outside.',
 'C28': 'The statistics of a cell (histogram clipping) are an unknown function of its pixels.',
 'C29': 'Lanczos weights are compared with the kernel at five fractions (static evaluation of the extracted closed form).',
 'C30': 'KronRadius, FluxRadius, GrowthCurve, Vignet, AssocMode and ExternalFlag are outside the statement.',
 'C31': 'The accuracy of the sampling (how many samples suffice) is outside.',
}
NOTES = {k: v for k, v in NOTES.items() if v}
TAIL = '''## False alarms met and removed

Statements that proved too strong for code that is right were narrowed: C09 (unknown pixel types fall back to float, it is
unknown FITS pixel codes that must raise an error), C11 (a status may be handed on to further calls, because the library
does nothing when given a failure; closing a file cannot be reported). Obligations that reported an equivalent rewriting
during the runs described above were corrected in the machinery. No alarm that was wrong is listed as a finding:
`known_findings.txt` holds repaired defects only.

## Tools considered

clang-tidy and cppcheck find none of these properties; the Clang static analyzer could host the typestate rules but not the
arithmetic ones, and its path budget makes absence of a report meaningless. Infer, CodeQL and Frama-C for C++ are not
available here. CBMC and the SMT solvers belong to other families.
'''
