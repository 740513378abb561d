"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 3, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

TM, TU, MU, M, R, C, T = ("arcticpy/trap_managers.py", "arcticpy/trap_managers_utils.pyx",
    "arcticpy/main_utils.pyx", "arcticpy/main.py", "arcticpy/roe.py", "arcticpy/ccd.py", "arcticpy/traps.py")
WM = ("watermarks", "trap occupancy as a stack of fractional volumes with fill levels", TM + " TrapManager")

p("C01", "Trapped and freed electrons always balance",
  "For every history of charge clouds passing over the traps of a pixel, the net number of electrons each passage reports as released equals exactly the decrease in the number the traps hold. A passage never captures more electrons than the cloud contains, and the traps never hold fewer than zero or more than their density of electrons. This is so for every kind of trap species.",
  ["histories", "inputs"], "all sequences of (cloud size, dwell time) passages, all trap kinds, densities and well shapes",
  "The tests check single releases or captures from hand-written occupancies; the failures need several watermark splits, merges and shortages in sequence.",
  [TM, TU], [("n_electrons_released_and_captured", TM), ("updated_watermarks_from_capture_not_enough", TM), ("collapse_redundant_watermarks", TM)],
  ["TrapManager*.n_electrons_released_and_captured() return value", "n_trapped_electrons_from_watermarks()"], [WM])

p("C02", "Capture and release follow the volume-driven rate law",
  "After any history of charge clouds, the electrons released or captured by the next one are those obtained by treating every volume element of the pixel on its own: elements above the cloud only release, exponentially with their species' release timescale; elements the cloud reaches release and capture with the combined capture/release law (or fill completely, for instant-capture species). When the cloud is too small to satisfy all of them, it is shared in proportion and used up exactly.",
  ["histories", "inputs"], "all passage sequences over mixtures of species with instant and finite capture, any well-filling function",
  "Tests fix one occupancy and one cloud per branch; agreement after arbitrary sequences of splits and merges of occupancy levels is never examined.",
  [TM, TU], [("fill_probabilities_from_dwell_time", TM), ("cy_update_watermark_volumes_for_cloud_below_highest", TU), ("cy_watermark_index_above_cloud_from_cloud_fractional_volume", TU)],
  ["n_electrons_released_and_captured() for every later cloud"], [WM])

p("C03", "Adding CTI equals explicit pixel-by-pixel readout",
  "For any non-negative image read out in imaging mode, the returned image is the one obtained by taking the charge of row r (counted from the readout register) through r+1 transfers past the traps of one pixel, row by row and pass by pass, with the traps acting as in C02 and empty at the start of the readout of a column. With the option to treat first transfers separately the traps are empty at the start of each pass; without it they continue from the state they were in just before the row where that pass begins.",
  ["inputs", "configurations"], "all images up to a small size over a small alphabet of pixel values, all express values, trap mixtures and first-transfer settings",
  "Tests compare a few single-bright-pixel images with 5% tolerances or inequalities only.",
  [M, MU, TM, R], [("cy_clock_charge_in_one_direction loops", MU), ("AllTrapManager.restore/save", TM)], ["add_cti() return value"], [WM])

p("C04", "Express computation accounts for every transfer exactly once",
  "Whatever the image length, offset, readout mode and multiplier type, every express setting from 0 upwards is accepted and the multipliers applied to a pixel add up to exactly the number of transfers that pixel undergoes, none of them negative. Integer multipliers are whole numbers, and asking for 0 or for at least as many passes as transfers gives the full transfer-by-transfer computation.",
  ["configurations", "inputs"], "all (pixels, express, offset, multiplier type, first-transfer option, readout class) combinations up to a bound",
  "One test samples 3 lengths x 4 express values; it misses express = pixels-1 and the charge-injection integer multipliers.",
  [R, M, MU], [("express_matrix_and_monitor_traps_matrix_from_pixels_and_express", R)], ["sum over passes of the returned matrix", "add_cti() with different express"])

p("C05", "Multi-phase clocking moves charge to the nearest high phase",
  "In every step of a clocking sequence exactly one phase per pixel is held high, the high phase advances one phase per step towards the readout register (and back again for trap pumping), traps in the high phase capture from the cloud that has been moved there, and traps in a low phase release to the cloud in the nearest high phase, half to each when two are equally near. With release forced away from readout, a low phase on the readout side of its pixel's high phase releases to the next cloud further from the readout, so that nothing is ever released to a cloud nearer the readout than the trap's own pixel; the fractions released always add up to one.",
  ["configurations"], "all numbers of phases, steps and both release settings up to a bound",
  "Tests list individual entries for 2-4 phases; nothing ties them to the physical layout or covers other phase counts and their effect on images.",
  [R, MU], [("ROEAbstract._generate_clock_sequence", R), ("row_index_read/row_indices_write", MU)], ["ROE.clock_sequence", "add_cti() with multi-phase CCDs"])

p("C06", "Spatial windows restrict the result without altering it",
  "Pixels outside the requested window of rows and columns are returned unchanged (except a pixel next to the window that charge is released into by multi-phase clocking). With every transfer computed separately, release forced away from readout and traps emptied between columns, a window of rows starting at the readout edge gives inside exactly the full-image result, a window starting later gives the result for that sub-image read out through the rows before it (in injection mode, with the full image's number of transfers), and a window of columns gives the full-image result for those columns.",
  ["inputs", "configurations"], "all images, all contiguous row and column windows, as range or single index, all readout modes for which the window is meaningful",
  "One test tries five windows on one 12-row column.",
  [M, MU, R], [("window_range slicing of the express matrix", R), ("window_row_range[row_index]", MU)], ["add_cti(parallel_window_range, serial_window_range)"])

p("C07", "An offset equals explicit prescan pixels",
  "Reading out an image with an offset of k pixels gives exactly the rows that would be obtained from the same image with k empty rows put in front of it, for imaging and injection, parallel and serial clocking, any image and either treatment of first transfers, with traps emptied between columns and release forced away from readout. Where first transfers are treated separately this is asked of the full computation and of express settings below the number of rows.",
  ["inputs", "configurations"], "all images, offsets, express values computing the same number of passes, first-transfer settings",
  "One test uses a single bright pixel behind two empty rows, so that trap states carried between passes never matter.",
  [R, MU], [("offset columns of the express matrix", R), ("save_trap_states_matrix_from_express_matrix", R)], ["add_cti(parallel_offset=k)"])

p("C08", "Time windows partition the readout",
  "A time window implements exactly the transfers whose index lies in it: the multipliers of any set of windows that partition the readout add up to those of the full readout, and outside the window nothing in the image changes although the traps are still followed. With every transfer computed separately from empty traps, first transfers treated separately and release forced away from readout, running successive windows one after another on the image reproduces the full readout exactly, for parallel followed by serial clocking too.",
  ["inputs", "configurations", "histories"], "all partitions of the readout into consecutive windows, images, offsets and express values",
  "One test splits one image once with abs tolerance of 1 electron; another checks one 3-way split of one matrix.",
  [R, M, MU], [("restrict_time_span_of_express_matrix", R), ("monitor_traps_matrix", R), ("serial_window_column_range", M)], ["add_cti(time_window_range)", "express matrix with a time window"])

p("C09", "Serial clocking is parallel clocking of the transposed image",
  "Serial clocking of an image gives the transpose of parallel clocking of its transpose with the same settings; requesting both gives serial clocking of the parallel result; requesting neither returns the image unchanged. Settings given for one direction never influence the other.",
  ["inputs", "configurations"], "all images, rectangular shapes, separate settings for the two directions",
  "Tests only check signs and inequalities of trails around single pixels.",
  [M], [("image.T before and after serial clocking", M)], ["add_cti(parallel_*, serial_*)"])

p("C10", "Columns are read out independently unless traps are carried over",
  "When traps are emptied between columns, the result for a column depends on that column alone: permuting, removing or duplicating columns permutes, removes or duplicates the results. When they are not, the columns are processed in order and each one starts from the trap occupancy the previous one ended with, however many columns there are.",
  ["inputs", "configurations", "histories"], "all small images of several columns, all trap kinds, both settings, all express values",
  "Tests use images whose other columns are empty; the carried-over mode is not tested at all.",
  [MU, TM], [("empty_all_traps()/save() at the end of a column", MU), ("max_n_transfers sizing of the watermark array", MU)], ["add_cti() on multi-column images"], [WM])

p("C11", "Adding and removing CTI are pure functions of their arguments",
  "No call changes the image, trap, CCD or readout objects given to it, and the returned image never shares memory with the input. The result of a call depends only on its arguments, not on any earlier call that used the same objects.",
  ["histories", "inputs"], "all sequences of up to a few calls (different images, modes, windows) sharing one set of objects",
  "Each test uses fresh objects for one call.",
  [M, MU, TM, R], [("deepcopy(image)", M), ("deepcopy(traps)", TM), ("n_pixel_transfers default", R)], ["argument state before/after", "results of repeated and interleaved calls"])

p("C12", "CTI removal is the documented fixed-point iteration and inverts CTI",
  "Removing CTI with n iterations returns the n-th iterate of estimate + (image - add_cti(estimate)) started from the image itself, using every clocking option that was given; zero iterations return the image unchanged. On images whose trails were added with the same settings, by traps that hold a small part of the charge, the iterates approach the original, the error not growing with further iterations.",
  ["inputs", "configurations"], "all small images over an alphabet, all option combinations, iteration counts up to a bound",
  "Tests check 'closer than before' on a handful of images with default options.",
  [M], [("image_remove_cti += image - image_add_cti", M)], ["remove_cti()"])

p("C13", "The well-filling function is a bounded monotonic power law",
  "For each phase, the fraction of the volume a cloud fills is ((electrons - notch) / (full well - notch)) to the fill power, 0 up to the notch depth and 1 from the full well depth upwards, and never decreases with the number of electrons. All equivalent ways of asking for it agree, and per-phase lists or single values set the parameters of exactly the phases they describe; a list of the wrong length is rejected.",
  ["inputs", "configurations"], "all electron counts including the boundaries, all per-phase parameter combinations, all access routes",
  "Tests check six points of single-phase devices.",
  [C, "arcticpy/util.py"], [("CCD.well_filling_function", C), ("set_min_max", "arcticpy/util.py")], ["CCD.cloud_fractional_volume_from_n_electrons_and_phase", "CCDPhase"])

p("C14", "Charge injection gives every pixel the same number of transfers",
  "In charge-injection mode every pixel is transferred the configured number of times (by default the number of image rows plus the offset) regardless of its position, the image size or the window modelled, each transfer pass starting from empty traps (or, when traps are carried over between columns, from those the previous column left). The output equals explicit clocking of the column that many times, and all express settings and multiplier types count the same total.",
  ["inputs", "configurations"], "all images, transfer counts above and below the image size, express values, multiplier types, windows",
  "Tests use transfer counts equal to the image size, or compare express values among themselves.",
  [R, M, MU], [("ROEChargeInjection.express_matrix_and_monitor_traps_matrix_from_pixels_and_express", R)], ["add_cti() with ROEChargeInjection"])

p("C15", "Trap pumping repeats the pump sequence on the chosen pixels only",
  "In trap-pumping mode only the chosen pixels' traps act: charge is exchanged with the pixel itself and its immediate neighbours, every other pixel is unchanged, and a full computation equals the forward-and-back clock sequence executed the configured number of times with trap states kept between pumps. Each chosen pixel and each column starts with empty traps; approximate (express) computations count the same total number of pumps.",
  ["inputs", "configurations"], "all images, pumped pixels (including both edges), phases holding traps, pump counts, express values",
  "Tests pump the middle pixel of one uniform column twice.",
  [R, MU, M], [("ROETrapPumping", R), ("zero padding", MU), ("save_trap_states_matrix_from_express_matrix", R)], ["add_cti() with ROETrapPumping"])

p("C16", "Trap species combine additively and order does not matter",
  "Reordering the species of a group, splitting a species into several of the same kind whose densities add up to its own, adding species of zero density, or passing a single species bare rather than in a list does not change the result. The order of groups kept separate does not matter as long as there is enough charge for all of them, and where the volume of a cloud does not depend on what is trapped, the effects of species and groups simply add up. Even when there is too little charge for all groups, no more charge is removed than a pixel holds. Likewise the effect on ellipticity of a trap species with one lifetime is proportional to its density, by the published fit to its lifetime, and that of a group is the sum over its species.",
  ["inputs", "configurations"], "all small images and all regroupings of up to three species of each kind",
  "One test compares two traps of half density for one image; the test of separate groups asserts nothing.",
  [TM, MU], [("AllTrapManager grouping", TM), ("sum over trap_managers[phase]", MU)], ["add_cti() with regrouped species"])

p("C17", "Continuum-lifetime traps behave as the mixture they stand for",
  "For a species with a distribution of release lifetimes, the fraction still filled is 1 at zero elapsed time, never increases, and equals the distribution-weighted mean of exponentials; the electrons released over a dwell equal the drop of that fraction, and converting a fraction to an elapsed time and back returns it, traps that could only be partly filled behaving as if filled earlier by the time that matches their fraction. Adding CTI with such a species gives the same image as with the equivalent set of single-lifetime instant-capture species.",
  ["inputs", "configurations", "histories"], "elapsed/dwell times over decades, medians and widths (sigma from 0.01) of the distribution, cloud histories, small images",
  "Tests compare at a few times for one or two parameter sets; histories with too little charge to fill the traps are never run.",
  [T, TM], [("TrapLifetimeContinuumAbstract", T), ("TrapManagerTrackTime", TM)], ["fill_fraction_from_time_elapsed", "add_cti()"], [WM])

p("C18", "The HST ACS preset follows its published time dependence",
  "For every Julian date from launch on, the preset returns three instant-capture species whose densities are the fixed proportions of the piecewise-linear total density for that date and whose release times are those for the operating temperature of that date, a single-phase CCD and single-step readout with the ACS parameters, ready to be passed to add_cti or remove_cti. Earlier dates are rejected.",
  ["inputs"], "all dates, in particular both sides of the temperature change and the SM4 repair",
  "The test compares four dates by inequalities.",
  [M], [("model_for_HST_ACS", M)], ["model_for_HST_ACS(date)"])

p("C19", "Frame images keep their geometry and give array-identical values",
  "Passing a Frame gives the same pixel values as passing the plain array, in a Frame of the same class carrying the same mask, readout corner, scan regions and exposure information, masked pixels being zero (for removal, in each iteration); the Frame passed in is not altered. This holds for adding and removing CTI, with any clocking options, including none.",
  ["inputs", "configurations"], "all small images, masks, readout corners, clocking options, add and remove",
  "No test passes a Frame.",
  [M], [("isinstance(image, frames.Frame)", M)], ["add_cti()/remove_cti() on Frames"])

p("C20", "Random trap densities are reproducible whole-trap realisations",
  "Drawing random densities returns, column by column and in the species' order, one species per species and column whose density is a whole number of traps per column divided by the rows, drawn with the requested mean; every other property of the species is that of the original. The same seed gives the same draw, and the originals are not altered.",
  ["inputs", "configurations"], "all species lists, image shapes and seeds up to a bound",
  "Tests compare fixed draws for plain species with default capture only.",
  [T], [("Trap.poisson_trap", T)], ["Trap.poisson_trap()"])

p("C21", "Every valid configuration completes in bounds with a sane image",
  "Any combination of documented options valid on its own - readout class and flags, phases, express, offset, row/column/time windows, trap kinds and groups, float or integer image type, image shapes down to one pixel - runs to completion without touching memory outside the image or the trap records. It returns a finite, non-negative image of the input's shape.",
  ["configurations", "inputs"], "the full cross product of the options on small images",
  "Tests touch a few combinations; several others raise or silently read and write outside the image (bounds checks are compiled out).",
  [MU, TU, R, M], [("zero padding and row_index_read/row_index_write", MU), ("boundscheck(False)", MU), ("watermark array sizing", TM)], ["add_cti(), remove_cti()"])

p("C22", "Saved trap states are restored exactly",
  "After any sequence of charge passages, saves, restores and emptyings, restoring brings back the occupancy of every phase and species group as it was at the latest save (all empty if there was none), no matter what happened since and how often it is restored, and emptying leaves nothing trapped. Saving never disturbs the current occupancy, and the reported number of trapped electrons is always that of the current occupancy summed over phases and groups.",
  ["histories"], "all sequences of passages, save, restore and empty up to a depth, for several phases and groups",
  "One test saves and restores once.",
  [TM], [("AllTrapManager.save/restore/empty_all_traps", TM)], ["AllTrapManager[phase][group]", "n_electrons_trapped_currently"],
  [("_saved_data", "deep copy of the trap managers at the last save", TM)])

p("C23", "CTI only delays charge: nothing is created or moved towards readout",
  "For any non-negative image read out in full (express 0, imaging or injection, first transfers treated separately, traps emptied between columns, release forced away from readout, no time window), the image with CTI added is non-negative, has no more total charge than the input, and has no more cumulative charge in the rows up to any given one than the input, so that charge only ever moves away from the readout register. Rows before the first charge in a column stay empty, an empty image stays empty, and without traps, or with traps of zero density, the image is unchanged.",
  ["inputs", "configurations"], "all small images and trap mixtures, imaging and charge injection, parallel and serial clocking, offsets and row windows",
  "Tests look at the trail of single bright pixels.",
  [MU, TM], [("image update", MU)], ["add_cti() cumulative sums"])

p("C24", "Elapsed-time and fill-fraction bookkeeping agree",
  "For ordinary exponential species, tracking the time since capture gives, for every history of clouds and dwell times, the same released and captured electrons as tracking the filled fraction, including when there are too few electrons to fill the traps.",
  ["histories"], "all passage sequences up to a depth, one or more species, abundant and scarce charge",
  "Two tests run one passage from one hand-written occupancy; the shortage path is not run.",
  [TM], [("TrapManagerTrackTime", TM), ("TrapManagerInstantCapture", TM)], ["n_electrons_released_and_captured()"], [WM])

p("C25", "The units of time and of charge are free",
  "Expressing all dwell times and trap lifetimes in another unit leaves every result of adding or removing CTI unchanged, and expressing the image, the full well and notch depths and the trap densities in another unit of charge multiplies the result by that unit. This is so for all kinds of traps, readout modes and express settings, however large or small the unit.",
  ["inputs", "configurations"], "all small images, mixtures of species and readout modes, factors of time and charge over many decades",
  "Tests use times of order one and charges of order a hundred; an absolute threshold or tolerance passes them all.",
  [MU, TM, T, C], [("fill_probabilities_from_dwell_time", TM), ("time_elapsed_from_fill_fraction", T), ("steps_with_nonzero_dwell_time", MU)],
  ["add_cti(), remove_cti() with rescaled arguments"])

p("C26", "Calls do not disturb each other, at the same time or interrupted",
  "Calls running at the same time in several threads, sharing CCD, readout and trap objects, each give the result they give alone, whatever their interleaving. A call that is interrupted at any point leaves the image and objects it was given as they were, and later calls unaffected. No call alters the process-wide warning filters, numpy error handling or global random generator.",
  ["schedules", "crash_points"], "all preemption-bounded interleavings of two calls, and all points at which a call can be interrupted",
  "Tests run one call at a time, to its end, with objects of its own.",
  [M, MU, TM, R, T], [("fill_probabilities_from_dwell_time", TM), ("poisson_trap", T), ("default number of charge injection transfers", MU), ("deepcopy(traps)", TM)],
  ["results of concurrent calls", "arguments and process-wide settings after a call or an interruption"])

p("C27", "Changing a setting equals building the object with it",
  "Assigning the dwell times, multiplier type, trap-emptying options or number of transfers or pumps of a readout object, the well or phase parameters of a CCD, or the density of a species has the same effect on every later call as building the object with those values. This holds for every sequence of assignments that ends in a consistent configuration, whatever was computed with the objects in between.",
  ["histories", "configurations"], "all sequences of assignments up to a depth with calls in between, for imaging, injection and pumping",
  "Tests build every object once, with its final settings.",
  [R, C, TM, T], [("ROEAbstract.dwell_times setter", R), ("ROETrapPumping.dwell_times setter", R), ("CCD property setters", C)],
  ["add_cti() after assignments"], [("clock_sequence", "state of each phase at each step of the clocking", R + " ROEAbstract")])

p("C28", "Defaults are as documented and settings given another way mean the same",
  "Leaving out any options of add_cti, remove_cti, a constructor or a method, or passing None where that is the default, gives the same result as passing the documented defaults; so do arguments by position in the documented order, a single-pixel window as an index, and numbers given as int, float or numpy scalars. No use or change of one object alters the defaults of objects built later.",
  ["inputs", "configurations", "histories"], "all combinations of options given and left out, and all sequences of changes to default-built objects",
  "Tests always pass nearly all options by name, once each.",
  [M, R, C, T], [("default windows and ROE of add_cti", M), ("keyword defaults of the constructors", R), ("well_bloom_level default", C), ("keyword defaults", T)],
  ["add_cti(), remove_cti() and constructors with options left out"])

p("C29", "Invalid settings are refused and change nothing",
  "An express_matrix_dtype other than int or float, an odd number of trap-pumping steps, a per-phase list whose length is not the number of phases, and the wrong number of trap densities raise an error when assigned or passed to the constructor. After the refused assignment the object has, and acts on, exactly the settings it had, whatever valid and invalid assignments came before; valid values are taken. A date before launch raises for the HST ACS preset.",
  ["histories", "inputs"], "all sequences of valid and invalid assignments up to a depth, for every class with checked settings",
  "Tests check that one invalid value raises, not what is left afterwards.",
  [R, C, TM, M], [("express_matrix_dtype setter", R), ("ROETrapPumping.dwell_times setter", R), ("CCD property setters", C), ("n_traps_per_pixel setter", TM), ("model_for_HST_ACS", M)],
  ["assignments and what is left after them"])

p("C30", "Copies of settings and differently stored images act the same",
  "CCD, readout and trap objects that were copied (deeply or not) or pickled, any number of times and whatever was computed with them before, act like the originals, and assigning to the attributes of a copy does not alter the others, nor does altering, later, the lists that values were given as, so that work can be shared out to other processes. The number type, byte order, memory order, strides, writability and memory-mapping of an image array do not affect the values that adding or removing CTI returns; the array given is not changed, and the result shares no memory with it.",
  ["histories", "inputs"], "all histories of copying, pickling, using and changing settings up to a depth; all ways of storing small images, for every mode of readout",
  "Tests use freshly built settings and ordinary float arrays.",
  [M, MU, R, C, T], [("deepcopy(image)", M), ("conversion of the image to float64", MU), ("CCD property setters", C), ("ROEAbstract.dwell_times setter", R)],
  ["add_cti() and remove_cti() with copied settings and stored images"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
