"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

def P(id, title, statement, over, text, why, files, state, mech, observe):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=None))

L = []
L.append(P("C01", "A model evaluation depends only on its parameters and inputs",
 "Evaluating a galaxy model (2D slit spectrum, IFU spectral cube, or 1D rotation/dispersion aperture correction) at given parameter values gives the same result as a freshly built model with those values and inputs. Nothing evaluated before on the same objects matters: other parameter values (including a changed spatial shift or redshift, or dispersions small enough to need finer wavelength sampling), failed or interrupted evaluations, other models built from the same galaxy, instrument or profile objects. Copying or pickling a model, before or after, does not change what it or its copy evaluates to.",
 ["histories", "inputs", "crash_points", "configurations"],
 "for every sequence of evaluations, rebuilds, copies, pickle round trips and interruptions at any instant, over every supported model configuration",
 "The tests evaluate each model once, at one parameter set, and never re-evaluate after another parameter set, an exception, a copy or a neighbour model; the caches (grid, upsampled wavelength arrays, PSF stamp, slit offsets) only misbehave over such histories.",
 ["misfit/model/aper_model.py", "misfit/model/kin_model.py", "misfit/model/kin_classes.py", "misfit/instrument.py"],
 [("wave_arr/I_matrix and their *_real copies", "wavelength grid, replaced during a finely sampled evaluation and restored afterwards", "misfit/model/aper_model.py AperModel2D"),
  ("delta_position_velspace, inst_disp_*", "slit offset results cached between evaluations", "misfit/model/aper_model.py"),
  ("_conv_stamp", "PSF kernel for one model's grid", "misfit/instrument.py")],
 [("update_model rebuilds what depends on changed parameters", "misfit/model/aper_model.py"), ("private instrument copy per model", "misfit/model/aper_model.py setup_calcs")],
 ["KinModel2D.model", "KinModel2D.model_cube", "KinModel2D.model_llike()", "AperModel1DRot.disp_aper_ratio", "AperModel1DDisp.disp_aper_ratio"]))

L.append(P("C02", "The inputs and the random seed alone determine a 2D fit",
 "The recorded samples, their log-probabilities, the acceptance fractions and the best-fit values of a 2D kinematic fit are determined by the inputs, the options and the random seed. The number of worker processes, how work is split and scheduled between them and the order in which they finish, the wall clock, and which optional output files (log, sampler pickle, step-by-step h5 file, best-fit file, plots) are requested never change them. Whatever random numbers workers consume privately does not either, nor does the process a fit runs in, and another seed gives other samples.",
 ["schedules", "configurations"],
 "for every worker count, task split, completion order, clock behaviour and set of requested outputs",
 "The only fit in the test suite runs once under one real scheduler with one set of output files and no second run to compare with.",
 ["misfit/fit/fit_core.py", "misfit/fit/fit2D.py", "misfit/fit/fit_io.py", "misfit/general/general_utils.py"],
 [("pruned fit object", "what each worker receives and evaluates on", "misfit/fit/fit_core.py make_pruned_fitEmis2D_class"),
  ("sampler state", "positions, probabilities and random state carried from burn-in to sampling", "misfit/fit/fit_core.py")],
 [("sampler created from the global seeded state and carried step by step", "misfit/fit/fit_core.py _run_mcmc_emcee_3_pool"), ("workers evaluate a self-contained copy", "misfit/fit/fit_core.py lnprob")],
 ["FitEmissionLines2D.sampler_dict", "FitEmissionLines2D.mcmc_results", "the files named in MCMC2DOptions"]))

L.append(P("C03", "Fits and models sharing objects do not influence each other",
 "Fits, models and mock observations used in any interleaving in one process each give what they give when run alone, also when they share an instrument, options, prior, or profile objects, work on the same galaxy's 1D spectrum, or rely on default settings. Building, fitting, analysing and plotting leave the caller's settings as they were: parameter starting values, which parameters vary and their bounds, model options, the instrument, the galaxy's structural parameters, and what belongs to the whole process (working directory, signal handlers, numpy's error handling).",
 ["schedules", "histories", "configurations"],
 "for every interleaving of the stages (construct, set up, sample, analyse, save, evaluate) of several fits, models and mocks with any set of shared objects",
 "Every test builds its own objects and runs one thing; nothing checks a second fit, a shared object, or the caller's objects afterwards.",
 ["misfit/fit/fit2D.py", "misfit/fit/fit1D.py", "misfit/fit/fit_core.py", "misfit/model/kin_model.py", "misfit/model/aper_model.py", "misfit/mock/generate_basic.py"],
 [("default objects", "profiles, options and settings used when the caller passes none", "constructors"),
  ("shared instrument/profile", "caller objects referenced by several fits", "misfit/model/aper_model.py")],
 [("fresh default objects per call, private copies of mutable inputs", "misfit/fit/fit2D.py, misfit/model/kin_model.py, misfit/mock/generate_basic.py")],
 ["each fit's sampler_dict and mcmc_results", "each model's output", "attributes of the caller's objects"]))

L.append(P("C04", "Saved result files survive crashes and failed writes",
 "At every instant, and after a crash of the process or the machine at any instant, a full disk, an I/O error or a short write, the sampler file and the best-fit file of a 2D fit and the Monte Carlo file of a 1D fit are each either absent (if never saved before), the complete previous version, or the complete new version. A save that returns normally is durable and complete. A save that fails is reported to the caller, and a later save to the same name succeeds.",
 ["crash_points", "fault_sequences", "histories"],
 "for every crash point, I/O error, full disk and short write in any sequence of saves and loads",
 "Tests write a file once, successfully; no test can stop the process in the middle of a write, lose unsynced data, or fill the disk.",
 ["misfit/fit/fit_io.py", "misfit/fit/fit2D.py", "misfit/fit/fit1D.py", "misfit/fit/fit_core.py"],
 [("result file", "pickle at the configured name", "MCMC2DOptions.filename_sampler, filename_bestfit_model; err_filename")],
 [("write to a temporary file, sync, then replace", "misfit/fit/fit_io.py dumppickle")],
 ["contents of the configured file names on the simulated disk", "FitEmissionLines2D.reload_sampler / reload_bestfit_model", "FitEmissionLines1D.load_mc_sim_matrix"]))

L.append(P("C05", "Reloading or re-analysing a fit reproduces its results",
 "Reloading a saved sampler or best-fit file, in the same or a new process, and analysing it gives the same best-fit values, uncertainties, samples and best-fit model as the fit that wrote it. Analysing again, any number of times and mixed with reloading, saving again and plotting, changes nothing further: same results, same sample columns (the fitted parameters followed by the four derived ones), same saved contents. A reloaded fit can be saved, evaluated and fitted again like the original.",
 ["histories", "configurations"],
 "for every sequence of reload, analyse, save, evaluate, plot and refit operations after a fit",
 "No test reloads anything or analyses twice; errors appear only over such sequences.",
 ["misfit/fit/fit2D.py", "misfit/fit/fit_core.py", "misfit/fit/fit_io.py"],
 [("sampler_dict", "samples plus derived columns", "FitEmissionLines2D"), ("mcmc_results", "best-fit values and limits", "FitEmissionLines2D"), ("kinModel.bestfit", "model at the best fit", "FitEmissionLines2D")],
 [("derived columns recomputed from the fitted ones", "misfit/fit/fit_core.py add_v_re_22"), ("pruned result object", "misfit/fit/fit2D.py make_pruned_fitEmis2D_result_class")],
 ["sampler_dict['flatchain']", "mcmc_results.*", "kinModel.model", "the saved pickles"]))

L.append(P("C06", "A fit records exactly the sampling steps it should",
 "The recorded chain excludes all burn-in steps and continues from the last burn-in positions; it holds exactly the requested number of steps, or stops early only when the acceptance fraction is within its limits, at least 50 steps are done, the step number exceeds the required multiple of the longest autocorrelation time, and running all steps was not requested - and then it stops at the first such step. The in-memory chain, the sampler pickle and the step-by-step h5 file hold the same steps (absolute values, where absolute dispersions are requested, being taken after sampling), flattened samples correspond one to one to chain entries, and the log's step count agrees. If the run dies part-way, the h5 file holds exactly the first steps of the uninterrupted run; with overwriting disabled, a new run's steps are appended after the existing ones, which stay unchanged.",
 ["crash_points", "histories", "configurations"],
 "for every burn-in length, step count, convergence setting, crash or failure point and overwrite setting",
 "The single fit in the test suite fixes one burn-in/step count, never meets the early-stop rule, never crashes, and never inspects the h5 file.",
 ["misfit/fit/fit_core.py", "misfit/fit/fit_io.py"],
 [("backends", "burn-in and sampling groups of the h5 file", "misfit/fit/fit_core.py"), ("finishedSteps", "number of steps logged", "misfit/fit/fit_core.py")],
 [("one step at a time into separate burn-in and sampling backends", "misfit/fit/fit_core.py _run_mcmc_emcee_3_pool"), ("early stop criteria", "misfit/fit/fit_core.py")],
 ["sampler_dict", "h5 groups burnin_mcmc and mcmc", "sampler pickle", "log file"]))

L.append(P("C07", "Every recorded sample is a valid point with its true log-probability",
 "Every sample recorded by a 2D fit lies within the parameter bounds, and its recorded log-probability equals the prior plus the masked, weighted log-likelihood of the prepared data given the model at exactly that sample, as recomputed independently from the definitions; it is never NaN, and points outside the bounds or with a non-finite likelihood are never accepted. This holds at every step, on every worker, whatever points were evaluated before it on the same worker, and for any choice of free and fixed parameters.",
 ["schedules", "histories", "inputs", "configurations"],
 "for every sampling history, worker schedule, data set, choice of free parameters and model option",
 "The test compares one best-fit value with a loose tolerance; it never recomputes the log-probability of what was recorded, and cannot visit the chain histories in which stale state appears.",
 ["misfit/fit/fit_core.py", "misfit/model/kin_model.py", "misfit/model/aper_model.py", "misfit/model/kin_functions.py", "misfit/model/kin_classes.py"],
 [("theta / theta_vary", "full parameter array assembled from the free ones", "misfit/model/kin_model.py"), ("bounds", "flat prior limits", "misfit/model/kin_classes.py ThetaPriorFlat")],
 [("prior checked before likelihood, non-finite rejected", "misfit/fit/fit_core.py lnprob"), ("model scaled to the data per row", "misfit/model/kin_model.py scale_model")],
 ["sampler_dict['chain'] and ['lnprobability']", "h5 chain and log_prob"]))

L.append(P("C08", "A failed or interrupted fit fails cleanly and can be rerun",
 "If a model evaluation (in the main process or a worker) or an output file fails during a 2D fit, or the fit is interrupted at any instant, the caller gets the error (never a normal return without results), every worker process and open output file of that run is released, and sampler and best-fit files saved by earlier runs stay loadable. Rerunning on the same objects, or on freshly built ones in the same process, then gives the same result as if the failure had never happened.",
 ["fault_sequences", "crash_points", "schedules"],
 "for every kind and position of evaluation error in any process, I/O error and interrupt, followed by a rerun",
 "No test makes anything fail part-way, counts workers or open files, or reruns after a failure.",
 ["misfit/fit/fit_core.py", "misfit/fit/fit2D.py", "misfit/fit/fit_io.py", "misfit/general/general_utils.py"],
 [("worker pool", "processes of the current run", "misfit/fit/fit_core.py"), ("log file", "open during sampling", "misfit/general/general_utils.py file_or_stdout")],
 [("pool terminated when the run fails, closed when it ends", "misfit/fit/fit_core.py _run_mcmc_emcee_3"), ("log closed by its context manager", "misfit/general/general_utils.py")],
 ["exception from FitEmissionLines2D.fit", "simulated pool and file states", "sampler_dict of the rerun"]))

L.append(P("C09", "Spectra are prepared for fitting exactly once, all or nothing",
 "Preparing a galaxy's 2D spectrum for fitting (continuum subtraction, masking, trimming, weighting, position) happens exactly once however many fits, copies or direct requests use it and in whatever order, and always gives what one preparation of fresh data gives. If preparation fails or is interrupted at any instant, the spectrum is left as given and a later preparation gives the normal result. The data arrays handed in by the caller, and the galaxy's 1D spectrum, are never modified.",
 ["histories", "crash_points", "fault_sequences"],
 "for every sequence of fits, copies, pickles, repeated preparations and failures or interrupts at any point of a preparation",
 "Tests prepare one spectrum once, without failure, and do not look at the inputs afterwards.",
 ["misfit/galaxy.py", "misfit/general/galaxy_utils.py", "misfit/fit/fit2D.py"],
 [("prepared_for_fitting", "whether the spectrum was prepared", "misfit/galaxy.py ObsSpectrum2D"), ("flux, flux_err, spec_mask, fitting_weight_matrix, m0, wh_nosky", "prepared data", "misfit/galaxy.py")],
 [("work on copies, commit at the end", "misfit/galaxy.py fit_prep_calcs")],
 ["attributes of galaxy.spec2D", "arrays passed in by the caller", "galaxy.spec1D"]))

L.append(P("C10", "1D line-fit Monte Carlo errors are reproducible and reload exactly",
 "For a given spectrum, settings and seed, a 1D line fit and its Monte Carlo uncertainties are reproducible (another seed gives other realisations), and do not depend on other fits run in between, on the line sets those use, or on whether a plot is made. The Monte Carlo realisations saved by a fit are exactly the ones its uncertainties were computed from (percentiles of the realisations about the best fit), and reloading them - in a later fit or when correcting the dispersion for the instrument - gives identical uncertainties. A fit stopped or failing at any instant leaves the previously saved realisations complete and loadable.",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "for every sequence of 1D fits, reloads and instrument corrections over shared galaxies and files, with crashes and I/O errors at any point",
 "The 1D test fits once without errors; reloads, saved realisations, shared galaxies and failures are never exercised.",
 ["misfit/fit/fit1D.py", "misfit/fit/fit_io.py", "misfit/model/emission_lines_model.py", "misfit/galaxy.py"],
 [("Monte Carlo matrix", "one row of fitted values per realisation", "misfit/fit/fit1D.py"), ("spec1D_trim", "trimmed spectrum of this fit", "misfit/fit/fit1D.py")],
 [("matrix saved before use, reloaded on request", "misfit/fit/fit1D.py save_mc_sim_matrix/load_mc_sim_matrix"), ("each fit trims its own copy", "misfit/fit/fit1D.py setup_spectrum")],
 ["z_err, vel_disp_err, flux_arr_err, cont_coeff_err, vel_disp_inst_corr(_err)", "the saved matrix file"]))

L.append(P("C11", "Best-fit values and uncertainties always match the recorded samples",
 "After any fit or re-analysis, the derived velocity and dispersion columns are the kinematic profile evaluated at each recorded sample (at the effective radius, and at 2.2/1.676 times it), and the 1- and 2-sigma uncertainties are the distances from the best fit to the 15.865/84.135 and 2.275/97.725 percentiles of the samples in which they are reported. Each best-fit value lies within the sampled range at a maximum of the smoothed marginal distribution (of the joint distribution for parameters linked together), fixed parameters keep their set values, and the opposite-sign percentages count the samples whose sign differs from the best fit. The model stored as best fit is the model at exactly the reported best-fit parameters, and with absolute dispersions requested no reported dispersion sample is negative.",
 ["histories", "inputs", "configurations"],
 "for every recorded chain, set of free, fixed and linked parameters, and history of analyses",
 "The test checks three best-fit values from one chain with wide tolerance; uncertainties, linked sets, derived columns and repeated analyses are unchecked.",
 ["misfit/fit/fit_core.py", "misfit/general/general_utils.py", "misfit/fit/fit2D.py"],
 [("mcmc_results", "bestfit_theta, err_theta_1sig, err_theta_2sig, percent_oppsign", "misfit/fit/fit_core.py"), ("flatchain", "samples with derived columns", "misfit/fit/fit_core.py")],
 [("percentiles and KDE peaks of the flat chain", "misfit/fit/fit_core.py get_param_posterior_bestfits"), ("linked sets", "misfit/general/general_utils.py get_bestfit_values_linked")],
 ["mcmc_results", "sampler_dict['flatchain']", "kinModel.bestfit"]))

L.append(P("C12", "Mock observations are repeatable and side-effect free",
 "Generating a mock slit observation or IFU cube with given arguments always gives the same result, whatever mocks, models or fits were made before or in between in the process, with or without explicitly passed profile objects, and after failed or interrupted generations. It equals the model evaluated directly with the same parameters, the cube has the requested number of wavelengths and square spatial pixels, and no argument object's inputs are changed.",
 ["histories", "configurations", "crash_points"],
 "for every sequence of mock generations, model evaluations and fits, interrupted or not, with shared or default profiles",
 "The tests generate single slit mocks and never a cube twice, nor two mocks with different galaxies or a shared profile.",
 ["misfit/mock/generate_basic.py", "misfit/model/kin_model.py", "misfit/model/aper_model.py"],
 [("default and shared profile objects", "updated for each galaxy", "misfit/mock/generate_basic.py")],
 [("fresh galaxy, instrument and model per mock", "misfit/mock/generate_basic.py")],
 ["generate_mock_slit_obs", "generate_mock_IFU_cube"]))

L.append(P("C13", "Diagnostic plots never change or lose results",
 "Making any diagnostic plot (trace, corner, best-fit, slit image) at any stage, in any order and any number of times, leaves samples, best-fit values, models, data and settings exactly as they were, and does not alter what later steps compute or save. A plot that was requested and does not fail is written to its file. A plot whose file cannot be written raises that error after the results preceding it were saved, leaves no figure open, and can be made again.",
 ["histories", "fault_sequences"],
 "for every sequence of plots between the other operations, with plot output failing at any call",
 "Tests do not make plots.",
 ["misfit/plot/plot_trace.py", "misfit/plot/plot_mcmc.py", "misfit/plot/plot_bestfit.py", "misfit/fit/fit2D.py", "misfit/fit/fit_core.py"],
 [("fit object", "passed to each plot function", "misfit/plot")],
 [("results saved before plotting", "misfit/fit/fit2D.py fit"), ("plots read only", "misfit/plot")],
 ["sampler_dict, mcmc_results, kinModel, galaxy before and after", "open matplotlib figures"]))

PURE = "for every valid input"
L.append(P("C20", "1D aperture corrections have the right numerical value",
 "The ratio of observed aperture dispersion to intrinsic dispersion returned for a rotating or dispersion-supported galaxy equals the PSF-convolved, slit-limited light-weighted second moment it is defined as, for all structural parameters.",
 ["inputs"], PURE, "The tests pin a few values.",
 ["misfit/model/aper_model.py", "misfit/model/kin_functions.py"], [], [("calc_aper_correction", "misfit/model/aper_model.py")], ["disp_aper_ratio"]))
L.append(P("C21", "Convolution and rebinning conserve total flux",
 "Convolving a spectral cube with the PSF or the instrument resolution, and rebinning it, conserve total flux for any non-negative input and kernel.",
 ["inputs"], PURE, "The tests use a few arrays.",
 ["misfit/model/kin_functions.py"], [], [("PSF_convolve, rebin, inst_convol_complete", "misfit/model/kin_functions.py")], ["returned arrays"]))
L.append(P("C22", "Slit and galaxy geometry is consistent",
 "The galaxy-to-slit misalignment angle lies within plus or minus 90 degrees and follows the position angles of galaxy, image and slit, and sky-to-galaxy coordinate transforms are rotations, for every combination of angles and axis ratios.",
 ["inputs"], PURE, "The tests use a few angles.",
 ["misfit/general/galaxy_utils.py", "misfit/model/kin_functions.py"], [], [("calculate_slit_offset_angles, transform_int_3d", "misfit")], ["galaxy.delt_PA"]))
L.append(P("C23", "Line tables are looked up correctly",
 "Every line group, rest wavelength, flux ratio and sky cutoff in the packaged tables is returned for its name, and unknown names are reported as such.",
 ["inputs"], PURE, "The tests look up a few names.",
 ["misfit/general/io.py"], [], [("read_line_names, read_restwave, read_line_ratio", "misfit/general/io.py")], ["returned values"]))
L.append(P("C24", "Trimming, masking and weighting select the right pixels",
 "Wavelength and spatial trimming keep exactly the pixels within the limits, the sky-line and low signal-to-noise masks flag exactly the pixels beyond their thresholds, and the edge weights follow their definition, for every spectrum.",
 ["inputs"], PURE, "The tests use one spectrum.",
 ["misfit/general/galaxy_utils.py"], [], [("trim_spectrum_2D_*, get_*_mask_2D, calculate_2D_fit_weights", "misfit/general/galaxy_utils.py")], ["galaxy.spec2D"]))

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in L:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(L))
