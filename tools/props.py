#!/opt/venv/bin/python
"""
Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md
from the texts below and the RULE/ASSUME texts of the check modules.
"""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

F = 'flowtracks/'
P = []
def prop(id, title, statement, over, quant, why, files, mech, note, level='model_checking', tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, 
        quant=quant, why=why, files=files, mech=mech, note=note, level=level, 
        tech=tech or 'bounded exhaustive exploration of the real code against '
        'a reference model'))

prop('C01', 'Linked particle files yield exactly the trajectories in their links',
    "Reading a directory of ptv_is or xuap frame files, or a single file of "
    "concatenated frames, yields exactly one trajectory for each maximal chain "
    "of links which ends within the frames read (chains still in progress at "
    "the last frame read are left out), at least two points long by default. "
    "Each trajectory holds the positions of the chain's particles in order, "
    "in meters, with the frame numbers as times, and an id no other "
    "trajectory of the reading has. This holds for any number and order of "
    "particles in the frames, including empty and single-particle frames.",
    ['inputs'], "for every sequence of frames and every consistent set of "
    "links between consecutive frames",
    "Tests read one short recording and compare counts; the space is all link "
    "graphs, where order of rows, empty frames and gaps interact.",
    [F + 'io.py'], [('frame-by-frame linking with a buffer of active frames', 
    'iter_trajectories_ptvis'), ('frame readers', 'FramesIterator, '
    'SingleFileIterator')], 
    "Every link graph up to 3x3, 4x2 (thorough: larger) plus long families; "
    "trusts numpy and the file system.")
prop('C02', 'Velocity and acceleration of linked particles follow their positions',
    "Velocities of trajectories read from ptv_is data are the forward "
    "differences of position times the frame rate, zero in the last point; "
    "accelerations are the forward differences of velocity times the frame "
    "rate, zero in the last two points. For xuap data the recorded velocities "
    "are returned and accelerations are calculated from them in the same "
    "way. Rows of other particles never contribute.",
    ['inputs'], "for every link graph, position pattern, frame rate",
    "Tests compare a single stored result; here every way of addressing the "
    "previous frame's rows matters.",
    [F + 'io.py'], [('velocity update of the previous frame, acceleration on '
    'completion', 'iter_trajectories_ptvis')], 
    "Link graphs as in C01, lengths 1..30, rates 1..1000.")
prop('C03', 'Frame range, minimal length and file template select exactly',
    "Reading frame files takes exactly the files whose names are the template "
    "with a frame number in the inclusive range first..last, in numeric "
    "order, whatever else is in the directory and however the directory is "
    "listed; chains cut by the range are treated as if only the frames in it "
    "were recorded. A trajectory is returned if and only if it has at least "
    "the minimal number of points asked for. All entry points (list, iterator, "
    "inferred format) agree.",
    ['inputs', 'configurations'], "for all ranges, lengths, templates, "
    "directory contents and listing orders",
    "Tests use one template and one range; directory listing order is chosen "
    "by the file system, not by a test.",
    [F + 'io.py'], [('template matching', 'template_matcher, FramesIterator'), 
    ('length filter', 'iter_trajectories_ptvis, trajectories')], 
    "Directory listings are permuted by an environment stand-in; 18 films x "
    "all ranges x lengths.")
prop('C04', 'Trajectories saved to an HDF table are read back as they were',
    "Saving trajectories to an HDF table and reading them - as trajectories, "
    "by frame range, by id or as a scene - returns the same trajectories "
    "with the same properties, shapes, value types, times and ids, restricted "
    "to the requested inclusive range. With trimming, that many points are "
    "removed from each end and trajectories with nothing left are not saved. "
    "Saving over an existing file replaces it.",
    ['inputs'], "for every list of trajectories, property set, trimming and range",
    "Tests round-trip one table; trimming, ranges at the ends, value types "
    "and sizes combine.",
    [F + 'io.py', F + 'scene.py'], [('table writing', 'save_particles_table'), 
    ('readers', 'trajectories_table, Scene')], 
    "Up to 3 trajectories of up to 5 points (single ones to 9), all inclusive "
    "ranges in turn.")
prop('C05', 'Frames saved to HDF are read back as frames and as trajectories',
    "Saving a series of frames and opening it as a scene gives back, for each "
    "frame, the same particles with the same data, and for each id the "
    "trajectory made of its particles in time order, whatever the order of "
    "rows in frames, gaps and empty frames. The bounding box, frame range and "
    "per-trajectory limits recorded agree with the data. Reading is "
    "indistinguishable from that of the same data saved as trajectories.",
    ['inputs'], "for every presence pattern of particles in frames and every "
    "row order",
    "Tests save one set of frames; holes, re-appearance and row orders are "
    "not sampled.",
    [F + 'io.py', F + 'scene.py'], [('frame writing', 'save_frames_hdf'), 
    ('scene reading', 'Scene')],
    "All 4096 patterns of 3 particles in 4 frames.")
prop('C06', 'Trajectories saved to a directory are loaded back with their extras',
    "Saving trajectories to a directory and loading them returns the same "
    "trajectories with the same properties, restricted to the inclusive frame "
    "range asked (trajectories with no point in it left out), however the "
    "directory is listed and whether it existed before. Arrays added per "
    "trajectory are returned under that trajectory's id, and free arrays "
    "under their names.",
    ['inputs', 'configurations'], "for every list of trajectories, added "
    "arrays, ranges and directory listing orders",
    "Tests save one directory; listing order and ranges are not explored.",
    [F + 'io.py'], [('writing', 'save_trajectories'), ('reading', 
    'load_trajectories')], "Up to 3 trajectories, all ranges, 4 listing orders.")
prop('C07', 'The same scene reads the same from every file format',
    "A scene stored in any of the supported formats (HDF table or frames, "
    "directory of arrays, Matlab, trajAcc, ptv_is) is read by the common entry "
    "point as the same trajectories, up to what the format cannot hold, for "
    "each inclusive frame range and minimal length, as a list or an iterator. "
    "The format is inferred correctly from file names of each documented kind.",
    ['inputs', 'configurations'], "for every small scene, format, range, "
    "minimal length and way of reading",
    "Tests read each format from one file and never compare between formats.",
    [F + 'io.py'], [('dispatch and filtering', 'trajectories'), ('readers', 
    'trajectories_mat, trajectories_acc, trajectories_ptvis, '
    'load_trajectories, Scene'), ('format guess', 'infer_format')], 
    "Scenes of up to 3 trajectories; range semantics of each format as "
    "documented.")
prop('C08', 'Every view of a scene agrees, under any history of use',
    "Reading a scene by frames, by trajectories, by id, by time and by "
    "collecting columns always shows exactly the data rows within the current "
    "frame range (from the first frame given, up to but not including the "
    "last), each once, whatever was read, set or half-iterated "
    "before. Changing the frame range takes effect for all views, including "
    "ranges outside the data or empty. Several iterators over the same scene "
    "advance independently.",
    ['histories'], "for every history of range changes, reads and interleaved "
    "partial iterations",
    "Tests call each method once on a fresh scene; stale iteration state shows "
    "only in sequences.",
    [F + 'scene.py'], [('range state and queries', 'Scene.set_frame_range, '
    'iter_frames, iter_trajectories, trajectory_by_id, frame_by_time, collect')],
    "All histories to depth 3 (thorough: 4 on a sub-alphabet) over 5 files.")
prop('C09', 'Segments pair the same particles in consecutive frames',
    "Iterating over segments of a scene gives, for each frame of the range "
    "except the last, the particles that appear both in it and in the next "
    "frame, and only these. The two frames of a segment have the "
    "same particles in the same rows, with the data of their own "
    "frames, whatever the order of rows in the file.",
    ['inputs'], "for every presence pattern, row order and frame range",
    "Tests use data whose frames list particles in the same order.",
    [F + 'scene.py'], [('frame pairing', 'Scene.iter_segments')], 
    "All 4096 patterns of 3 particles in 4 frames in rotation over 5 row "
    "orders.")
prop('C10', 'Collected columns hold exactly the rows which match the conditions',
    "Collecting columns of a scene under conditions returns, for each column "
    "requested and in the order requested, exactly the values of rows in the frame range which "
    "satisfy all conditions, in file order. A condition admits values from "
    "its minimum inclusive to its maximum exclusive, or, when inverted, the values "
    "outside that range. Limits are used in full precision.",
    ['inputs'], "for every combination of limits, inversions, columns and "
    "frame ranges",
    "Tests use a single condition with round limits.",
    [F + 'scene.py'], [('query construction', 'gen_query_string, '
    'Scene.collect, Scene.iter_frames')], 
    "All limit pairs on each of the columns, all pairs of conditions on "
    "different columns.")
prop('C11', 'Dual scenes iterate both files in step and leave no trace',
    "Iterating over a dual scene gives for each frame (or pair of frames) of "
    "the range the particles and the tracers of that frame. "
    "Iterating over an explicit subrange, whether finished, abandoned, never started or "
    "interrupted by an error, does not change what later iterations give.",
    ['histories'], "for every history of full, partial, nested, abandoned and "
    "failed iterations",
    "Tests iterate once to the end.",
    [F + 'scene.py'], [('temporary frame range', 'DualScene.iter_frames, '
    'iter_segments')], 
    "All histories to depth 3 on several pairs of files; one explicit-range "
    "iterator alive at a time.")
prop('C12', 'Sequences iterate aligned frame pairs under any history of use',
    "Iterating over a sequence gives, for each frame of its range or of the "
    "subrange asked, the particles and tracers which are also in "
    "the next frame, with rows of the two frames matched, under the current "
    "trajectory selectors. Frames are given once each and in order, whatever "
    "iterations came before, were abandoned or are still active. Frame rate, "
    "range and subrange queries agree with the iteration.",
    ['histories', 'inputs'], "for every history of iterations, selector changes "
    "and queries, and every small scene in each format",
    "Tests iterate one sequence once from the start.",
    [F + 'sequence.py'], [('iteration state', 'Sequence.__iter__, '
    'iter_subrange'), ('selection', 'set_particle_selector, '
    'set_tracer_selector')], 
    "Histories to depth 3 (thorough: 4); each selector leaves at least one "
    "trajectory.")
prop('C13', 'Mapping over a sequence calls once per frame and gives per-path results',
    "Mapping a function over a sequence calls it once for each frame of the "
    "range, in order, with the pair of frames and any extra arguments. The "
    "results are returned per trajectory of particles, each series holding "
    "the result for that particle in that frame (NaN where there is none), aligned with the "
    "trajectory's time, for any result shape and any frame subrange. A failing function leaves the "
    "sequence usable.",
    ['inputs', 'histories'], "for every small scene, subrange and kind of "
    "function, in sequences of mappings",
    "Tests map one function over one recording.",
    [F + 'sequence.py'], [('result assembly', 'Sequence.map_trajectories')], 
    "All scenes of 3 contiguous particles within 5 frames x every subrange.")
prop('C14', 'Snapshots hold exactly the trajectories present, without duplicates',
    "The trajectories found in a frame are exactly those with a point in it "
    "(and in the next frame too, for segments), one of any that "
    "coincide in space there. A snapshot of trajectories holds each one's data "
    "in that frame, in the order given, with the id and the value types. "
    "Filtering duplicate rows keeps exactly one row for each position, in the "
    "original order.",
    ['inputs'], "for every set of spans, coincidence pattern, frame and "
    "property set",
    "Tests have no coincident particles and one frame.",
    [F + 'trajectory.py'], [('presence', 'trajectories_in_frame'), ('data', 
    'take_snapshot'), ('duplicates', 'mark_unique_rows')], 
    "Up to 3 (thorough 4) trajectories over 4 frames.")
prop('C15', 'Neighbours and inverse-distance interpolation follow their definition',
    "For each point, interpolation uses its nearest tracers up to the number "
    "asked, or those within the radius, excluding the point's companion and "
    "tracers coinciding with the point. Inverse-distance "
    "interpolation returns the average of their data weighted by "
    "distance to minus the power given. Given a selection with some of the "
    "neighbours left out, it uses those that remain. Inputs are not modified.",
    ['inputs'], "for every arrangement of tracers and points, companion "
    "assignment, neighbour selection and power",
    "Tests interpolate one arrangement with distinct places.",
    [F + 'interpolation.py'], [('selection', 'select_neighbs'), ('weights', 
    'InverseDistanceWeighter')], 
    "All subsets of 8 tracer places; point-by-point formulas as oracle.")
prop('C16', 'An interpolant answers for its current scene, whatever came before',
    "Each answer of an interpolant - interpolated values, Jacobian, neighbours, "
    "distances - is that of a new interpolant which only ever saw the current "
    "tracers, points, data and companions. This holds for every sequence of "
    "scene changes, partial changes, trimming of points and queries. Answers "
    "handed out earlier do not change.",
    ['histories'], "for every sequence of scene changes and queries, for each "
    "method",
    "Tests set a scene once per object; stale caches need a second change.",
    [F + 'interpolation.py'], [('cached distances, weights, neighbours', 
    'GeneralInterpolant.set_scene, set_interp_points, trim_points, '
    'set_data_on_current_field'), ('derived caches', 
    'InverseDistanceWeighter, rbf caches of GeneralInterpolant')], 
    "All sequences up to length 4 over 18 operations per method.")
prop('C17', 'RBF and correlation-function interpolation follow their definition',
    "Radial-basis interpolation of selected neighbours solves for the weights "
    "that reproduce their data with the Gaussian kernel, and evaluates it at each point from that point's own "
    "neighbours only. Correlation-function interpolation weights each neighbour "
    "by the function's value in the bin of its distance, per "
    "component. Companions and missing neighbours contribute nothing.",
    ['inputs'], "for every arrangement of tracers and points, companions, "
    "neighbour selection, parameter",
    "Tests compare one field to a stored result.",
    [F + 'interpolation.py'], [('RBF', 'rbf_interp, rbf caches of GeneralInterpolant'), ('corrfun', 
    'corrfun_interp')], "Every subset of 1..6 of 8 tracers.")
prop('C18', 'Jacobians are the derivatives of the interpolated field',
    "The Jacobian of an interpolated field at each point is the derivative of "
    "each component by each coordinate, with the point's neighbours and "
    "companion kept: analytic for inverse-distance interpolation, forward "
    "differences of the given step for other methods. It "
    "refers to the current data, and whether interpolated values are "
    "passed or not makes no difference.",
    ['inputs'], "for every arrangement of tracers and points, companions, data",
    "Tests check one point among distinct tracers.",
    [F + 'interpolation.py'], [('analytic', 'InverseDistanceWeighter.eulerian_jacobian'), 
    ('numerical', 'GeneralInterpolant.eulerian_jacobian')], 
    "Every subset of 1..7 of 8 tracers; analytic derivative and differences "
    "of textbook formulas as oracle.")
prop('C19', 'Saved configurations read back as the same objects',
    "A sequence or interpolant saved to a configuration, when read back, gives "
    "the same data, frames and interpolation as the original, and saves the same "
    "configuration again; file names with percent signs and frame templates "
    "survive. Missing optional keys take their documented defaults and explicit "
    "arguments override the file. The last frame in a configuration is "
    "inclusive.",
    ['configurations'], "for every combination of parameters, file names and "
    "overrides",
    "Tests read one file of each kind.",
    [F + 'sequence.py', F + 'interpolation.py', F + 'scene.py'], 
    [('sequence', 'Sequence.save_config, read_sequence'), ('interpolant', 
    'save_config, read_interpolant'), ('scene', 'read_dual_scene')], 
    "Products of parameter alphabets, two and three round trips.")
prop('C20', 'Analysis tables hold the result for every particle in every frame',
    "An analysis of a dual scene writes one row for each particle of each "
    "segment in the frame range, with its time, id and the columns of each "
    "analyser, every value computed from that particle's own frame, tracers "
    "and companion. Re-running replaces earlier results, and the configuration "
    "used is stored alongside. The installed script does the same from its "
    "options.",
    ['inputs', 'configurations'], "for every presence pattern of particles and "
    "tracers, companion assignment, analyser list and frame range",
    "Tests run one analysis of one scene.",
    [F + 'analysis.py', 'scripts/analyse_fhdf.py'], [('loop and table', 
    'analysis'), ('companions', 'companion_indices'), ('fluid velocity', 
    'FluidVelocitiesAnalyser')], "256 particle patterns in rotation over tracer "
    "patterns and analysers; textbook interpolation as oracle.")
prop('C21', 'Analysed scenes join particles with their own analysis rows',
    "Reading an analysed scene gives each particle's data together with the "
    "analysis of that same particle in that same frame; trajectories are "
    "limited to the part analysed. Collecting columns, possibly from both "
    "sources, under conditions on either, returns exactly the matching rows. "
    "Keys and shapes listed are those of both sources.",
    ['inputs', 'histories'], "for every presence pattern, row order, analysed "
    "range, key list, conditions and sequence of reads",
    "Tests read one analysed scene.",
    [F + 'an_scene.py'], [('joining', 'AnalysedScene.trajectory_by_id, '
    'collect, iter_trajectories')], "All patterns of 2 particles in 4 frames; "
    "all sequences of 3 reads.")
prop('C22', 'A failed or interrupted operation can be repeated with right results',
    "When any file operation fails, or a data source or user function raises, "
    "the operation reports the failure or completes with right results; it "
    "never silently returns or stores wrong data. The same operation repeated "
    "on the same objects and files afterwards, in the same process or, after a crash, "
    "in another one, gives right results. No file is left open in between.",
    ['fault_sequences', 'crash_points'], "for every point at which an operation "
    "calls the file libraries or user code, before or after its effect; "
    "thorough: every pair of points",
    "No test injects failures.",
    [F + 'io.py', F + 'scene.py', F + 'analysis.py', F + 'sequence.py'], 
    [('closing and removal of files on failure', 'save_particles_table, '
    'save_frames_hdf, analysis, trajectories_table'), ('restored iteration '
    'state', 'DualScene.iter_frames')], 
    "Failure points are library calls; flush and close are assumed to work.", 
    tech='stateless model checking of the real code under a fault '
    'injector: exhaustive enumeration of fault and crash points')
prop('C23', 'Particle pairs give the nearest secondary particle at each point asked',
    "For each requested trajectory and time, in the order of the "
    "request, pairing returns the nearest particle of the secondary set among "
    "those present in that frame and the next. The "
    "trajectory found and the time point within it are both right, for any "
    "mixture of spans, repeated or unordered requests.",
    ['inputs'], "for every request order and every set of secondary spans",
    "There is no test of pairing at all.",
    [F + 'pairs.py'], [('search', 'particle_pairs')], 
    "Every list of up to 3 points x every choice of 2 secondary spans.")
prop('C24', 'Smoothing fits polynomials locally and keeps everything else',
    "Savitzky-Golay smoothing returns, for each trajectory at least as long as "
    "the window and in the order given, the value, first and second "
    "derivatives (in the frame rate's units) of the least-squares polynomial "
    "around each point, and the previous polynomial's prediction of "
    "velocity and acceleration. Time, id and other properties are kept and "
    "the input is not modified; shorter trajectories are left out and bad parameters are refused. Spline "
    "smoothing returns the smoothing spline's points and derivatives, or the "
    "trajectory itself if too short.",
    ['inputs'], "for every window, order, rate, and every trajectory of up to "
    "window + 1 points over a small alphabet",
    "No test covers smoothing.",
    [F + 'smoothing.py', F + 'trajectory.py'], [('filter', 'savitzky_golay'), 
    ('spline', 'Trajectory.smoothed')], "Independent least-squares fit per "
    "point; spline fit itself trusted to scipy.")
prop('C25', 'Histograms and graphs show exactly the data given',
    "A probability density of samples has the requested number of bins from "
    "the least to the greatest sample (positive ones only for logarithmic "
    "bins), each density times width times number of samples being the number "
    "of samples in that bin, the greatest included. Graphs show these values "
    "at bin starts on the axis scales asked for. Component plots draw each component in "
    "its own subplot, of a new or the given figure, with the options asked for.",
    ['inputs', 'histories'], "for every small multiset of samples, number and "
    "kind of bins; every history of plots on several figures",
    "No test covers graphs.",
    [F + 'graphics.py'], [('density', 'pdf_bins'), ('drawing', 
    'generalized_histogram_disp, pdf_graph, plot_vectors')], 
    "All multisets of up to 4 of 9 samples; figures read back from Matplotlib.")
prop('C26', 'Particle sets return what was put in them, property by property',
    "Each property of a particle set, trajectory or snapshot returns exactly "
    "what was last set, whole or for selected points, independently of other "
    "properties and of other sets. The schemas, dictionary and length always "
    "describe the current properties. Selecting points of a trajectory gives "
    "a table of their position, velocity, time and id; a particle's volume and "
    "mass are those of a sphere.",
    ['histories'], "for every history of creating and setting properties on "
    "two live sets, by every kind of selector",
    "Tests only create sets and read whole properties.",
    [F + 'trajectory.py', F + 'particle.py'], [('property methods', 
    'ParticleSet.create_property, schema, ext_schema, as_dict'), ('table', 
    'Trajectory.__getitem__')], "All histories of up to 3 of 14 operations.")
prop('C27', 'Docstring markup keeps every word and shows its structure',
    "Turning a docstring to documentation markup keeps all of its words in "
    "order. A title at the start of a section is emphasized and set apart, "
    "each definition becomes a list item with its names and text, following "
    "lines stay with their item until an empty line.",
    ['inputs'], "for every docstring of up to 5 lines of 10 kinds, and every "
    "docstring of the package",
    "No test covers it.",
    [F + 'format_docstrings.py'], [('line state machine', 'parse_docstring')], 
    "70,000 docstrings; result parsed back to blocks.")
prop('C28', 'Frame collectors find every particle of the frame asked, once',
    "Collecting the particles of one frame - from trajAcc files, a Matlab file "
    "or a list of trajectories - returns one row for each particle present in "
    "that frame wherever its path started, one per place; paired, only those "
    "present in the next frame too, with their row in it aligned. "
    "A single-frame configuration gives the particle properties, rate and two "
    "consecutive frames of particles and tracers, with matching rows.",
    ['inputs', 'configurations'], "for every set of spans within 4 frames, "
    "frame, and pair of file formats",
    "No test covers it.",
    [F + 'io.py'], [('collectors', 'collect_particles, '
    'collect_particles_generic, collect_particles_mat'), ('configuration', 
    'read_frame_data')], "All sets of up to 3 (thorough 4) of 10 spans.")

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 
                'statement': ' '.join(p['statement'].split()), 'quantifier': {
                'over': p['over'], 'text': p['quant']}, 'why_tests_cant': 
                p['why'], 'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': 
                None}}) + '\n')
    man = {'version': 1, 
        'setup_cmd': './check --setup',
        'checks': [{'property': p['id'], 'quick_cmd': './check %s' % p['id'], 
            'thorough_cmd': './check %s --tier thorough' % p['id'], 
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['tech'], 'level': p['level'], 'level_note': 
            p['note']} for p in P],
        'not_applicable': [], 
        'notes': 'No hooks in /repo: the environment (directory listings, '
            'file-library calls, user functions) is controlled from the '
            'harness by replacing names in library modules at run time.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1); f.write('\n')
    # per-property part of DESIGN
    d = os.path.join(HERE, 'DESIGN.md')
    if not os.path.exists(d): return
    s = open(d).read()
    a, b = '<!-- properties -->\n', '<!-- /properties -->\n'
    i, j = s.index(a) + len(a), s.index(b)
    out = ''
    for p in P:
        m = importlib.import_module('mc.checks.' + p['id'].lower())
        out += '### %s %s\n\n' % (p['id'], p['title'])
        out += p['statement'] + '\n\n'
        out += '- explored: %s\n' % m.RULE
        for t in m.ASSUME: out += '- assumed: %s\n' % t
        out += '- beyond the tests: %s\n\n' % p['why']
    open(d, 'w').write(s[:i] + out + s[j:])

if __name__ == '__main__':
    main()
