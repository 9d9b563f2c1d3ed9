"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    P.append(d)
VS='tmdsimpy/vibration_system.py'; HU='tmdsimpy/utils/harmonic.py'; JH='tmdsimpy/jax/harmonic_utils.py'
NF='tmdsimpy/nlforces/'; JF='tmdsimpy/jax/nlforces/'

p('C01','Harmonic coefficients and time series are exact inverses',
 'For any sorted harmonic list (with or without 0), any number of DOFs and any even number of samples above 2*hmax+1, evaluating a harmonic series (or its nth time derivative w.r.t. normalised time) gives at each sample exactly the trigonometric sum it denotes, and extracting Fourier coefficients of a sampled periodic signal gives exactly its Fourier projection, so the two are inverse on band-limited signals. The number of harmonic components is 2 per nonzero harmonic plus 1 for harmonic 0, the inputs are never modified, and the JAX variants return the same values as the NumPy ones.',
 ['inputs','configurations'],'all harmonic sets, DOF counts, coefficient matrices, derivative orders and sample counts',
 'Tests compare two stored MATLAB reference cases (one with and one without harmonic 0); gaps in the harmonic list, order>2, other Nt and out-of-band content are unsampled.',
 [HU,JH],[('time_series_deriv',HU),('get_fourier_coeff',HU),('Nhc',HU),('JAX versions',JH)])
p('C02','Harmonic dynamic stiffness is the Fourier image of M x" + C x\' + K x',
 'For any mass, damping and stiffness matrices, frequency and harmonic list, the harmonic stiffness matrix times harmonic displacement coefficients equals the harmonic coefficients of M x\'\'+C x\'+K x evaluated on the time signal, its frequency derivative is exact, and the damping-only option returns just the damping contribution (C x\'). Skipping gradients changes nothing but the returned gradient.',
 ['inputs','configurations'],'all matrices (also non-symmetric), frequencies incl. zero/negative, harmonic lists',
 'Tests use one 3-DOF system and one frequency.',
 [HU],[('harmonic_stiffness',HU)])
p('C03','Harmonic phase utilities act as time shifts and preserve the signal',
 'Rotating a harmonic solution so the phase of a chosen harmonic is reduced by given angles is a pure time shift of the periodic signal: every harmonic amplitude is preserved, the chosen harmonic loses exactly the requested phase, the zeroth harmonic is untouched, and each angle is handled independently (also for vector angles). Wrapping a phase returns an equivalent angle (modulo 2*pi) in [-pi, pi), and the zero-crossing finder flags exactly the samples whose successor has the opposite sign (and that are within the optional tolerance).',
 ['inputs'],'all harmonic lists, solutions, angle vectors, rotated harmonics and phases',
 'Tests check a few handpicked angles and one harmonic list; the phase wrapper and crossing finder are not tested.',
 [HU],[('rotate_subtract_phase',HU),('shift_pm_pi',HU),('zero_crossing',HU)])
p('C04','Instantaneous nonlinear forces follow their documented laws everywhere',
 'For every displacement/velocity, parameter set and (rectangular) local-coordinate map, the static force of the cubic, quintic, general polynomial, cubic damping, unilateral spring and conservative Iwan backbone models equals the documented law mapped through the local transforms. Their harmonic forces equal the Fourier projection of that law sampled on the actual motion, using true velocities for velocity-dependent forces, with forces of several local DOFs kept separate, and they do not depend on earlier calls.',
 ['inputs','configurations'],'all states, parameters, local maps with one or several local DOFs, harmonic lists, sample counts and frequencies',
 'Tests sample a few amplitudes of single element models; piecewise limits, preload/offset combinations, multi-DOF maps and odd harmonic lists are unsampled.',
 [NF+'cubic_stiffness.py',NF+'quintic_stiffness.py',NF+'cubic_damping.py',NF+'general_poly_stiffness.py',NF+'unilateral_spring.py',NF+'iwan_bb_conserve.py',NF+'nonlinear_force.py'],
 [('InstantaneousForce.aft / force / local_force_history',NF)])
p('C05','Every nonlinear-force Jacobian is the derivative of the returned force',
 'For every force model (instantaneous, hysteretic, NumPy and JAX, static and frequency-domain), at every point that is not exactly at a transition of the law (contact/separation, stick/slip, reversal) the returned Jacobians with respect to displacements (or velocities) and frequency equal the derivative of the returned force. Where an evaluation without gradients is offered it returns the identical force.',
 ['inputs','configurations'],'all models, parameters, maps, states away from kinks, harmonic lists',
 'Tests check gradients at a few hand-chosen states per model with loose tolerances.',
 [NF+'nonlinear_force.py',NF+'jenkins_element.py',NF+'iwan4_element.py',NF+'vector_jenkins.py',NF+'vector_iwan4.py',JF+'elastic_dry_fric_2d.py',JF+'elastic_dry_fric_3d.py',JF+'roughcontact/rough_contact.py'],
 [('aft/force derivative assembly','tmdsimpy/nlforces, tmdsimpy/jax/nlforces')])
p('C06','Jenkins and Iwan elements follow the slider model over any load history',
 'Over any sequence of trial evaluations, committed steps, history resets and prestress on/off switches, the static force of the Jenkins element and of the 4-parameter Iwan element equals that of the documented parallel slider model (spring in series with Coulomb slider) driven by the same committed history. Trial (non-committing) evaluations never change later results, no slider exceeds its slip limit, prestress mode slips freely without force and restoring it brings back the original slip limits exactly.',
 ['histories','inputs'],'all interleavings of evaluate/commit/reset/prestress operations and displacement paths, all parameters',
 'Tests drive a handful of fixed cycles and never interleave trial evaluations, resets and prestress switching.',
 [NF+'jenkins_element.py',NF+'iwan4_element.py'],
 [('force(update_hist)/init_history/update_history/set_prestress_mu/reset_real_mu',NF)],
 None,[('up, fp','committed slider displacement and force',NF+'jenkins_element.py'),('Fs','active slip limit',NF+'jenkins_element.py')])
p('C07','Hysteretic harmonic forces are steady-state slider cycles in all variants',
 'For any periodic motion the harmonic force of the Jenkins and Iwan elements equals the Fourier projection of the second cycle obtained by marching the slider model over the sampled motion from the documented initial slider position. The vectorised implementations and the JAX Jenkins implementations give the same force and Jacobian as the serial ones.',
 ['inputs','configurations'],'all motions (multi-harmonic, many reversals), parameters, harmonic lists, sample counts',
 'Tests compare variants on a few motions with few reversal points.',
 [NF+'jenkins_element.py',NF+'iwan4_element.py',NF+'vector_jenkins.py',NF+'vector_iwan4.py',NF+'nonlinear_force.py',JF+'jenkins_element.py',JF+'vector_jenkins.py'],
 [('HystereticForce.aft',NF+'nonlinear_force.py'),('critical-point vectorisation',NF+'vector_jenkins.py, vector_iwan4.py')])
p('C08','Elastic dry friction obeys contact and Coulomb limits over any history',
 'Over any history of static evaluations (with or without committing) and over any periodic motion, elastic dry friction elements (2D and 3D) return the normal force max(kn*(u_n - gap), 0) and, in each tangential direction, the spring force continued from the previously committed force and displacement, limited to +-mu times the current normal force. The harmonic force is the Fourier projection of the second such cycle from the configured slider position, prestress mode removes friction until restored, and the exported local force history is the one used in the harmonic force.',
 ['histories','inputs','configurations'],'all displacement histories, periodic motions with separation, parameters, gaps, initial slider options',
 'Tests cover single static evaluations from zero history and a few periodic motions.',
 [JF+'elastic_dry_fric_2d.py',JF+'elastic_dry_fric_3d.py'],
 [('_local_force_history / force / aft',JF+'elastic_dry_fric_2d.py, elastic_dry_fric_3d.py')])
p('C09','Rough contact friction follows the asperity model over any history',
 'Over any history of static evaluations the rough contact element returns the integral over asperities of the documented elastic / elastic-plastic / unloading normal law with memory of the largest approach, and tangential asperity forces that continue from the committed state and never exceed mu times the asperity normal force. No contact means no force, trial evaluations do not change later results, and the harmonic force equals the static model cycled twice on the unloading curve of the largest approach of the motion.',
 ['histories','inputs','configurations'],'all displacement histories and periodic motions, material parameter sets, gap distributions, both tangential models',
 'Tests compare a few stored cycles at fixed material parameters.',
 [JF+'roughcontact/rough_contact.py',JF+'roughcontact/_asperity_functions.py'],
 [('force/aft/local_force_history',JF+'roughcontact/rough_contact.py'),('asperity laws',JF+'roughcontact/_asperity_functions.py')])
p('C10','Harmonic forces are covariant, additive and pure',
 'For any collection of nonlinear forces on a system the total harmonic force is the sum of the individual ones, in any order of addition, and evaluating it leaves the inputs and later results unchanged. Shifting the motion in time by whole samples rotates the harmonic force accordingly (for hysteretic models once independent of the start), and adding unused harmonics with zero coefficients or a larger sample count that still resolves a polynomial force does not change the shared coefficients.',
 ['inputs','histories','configurations'],'all sets of forces, motions, shifts, call orders',
 'Tests evaluate forces one at a time at fixed states.',
 [VS,NF+'nonlinear_force.py'],[('total_aft',VS),('aft',NF+'nonlinear_force.py')])
p('C11','Harmonic balance residual states the periodic equation of motion',
 'For any system, set of forces, excitation, harmonic list and frequency, the harmonic balance residual equals the Fourier projection of M x\'\'+C x\'+K x+f_nl-f_ext on the motion it encodes, and its Jacobians w.r.t. displacements and frequency are exact. In the force-continuation form the harmonic excitation is multiplied by the load factor while static loads are not, its force Jacobian is exact, and skipping gradients returns the same residual.',
 ['inputs','configurations'],'all systems, forces, loads, harmonic lists, states',
 'Tests use one or two systems and check gradients at single states.',
 [VS],[('hbm_res',VS),('hbm_res_dFl',VS)])
p('C12','Amplitude and phase controlled harmonic balance adds exactly its constraints',
 'The amplitude-controlled and amplitude-and-phase-controlled residuals equal the harmonic balance residual under the correspondingly scaled (and phase-combined) excitation, followed by exactly the documented amplitude or amplitude/phase conditions on the controlled response (displacement, velocity or acceleration order). All returned Jacobians, with respect to displacements, force scales, frequency or amplitude, are exact, and solutions found in one formulation are solutions of the others.',
 ['inputs','configurations'],'all systems, control DOFs/recovery vectors, derivative orders, states',
 'Tests check a few states for a few orders on one system.',
 [VS],[('hbm_amp_control_res, hbm_amp_phase_control_res, hbm_amp_phase_control_dA_res',VS)])
p('C13','Base excitation equals the system with prescribed base motion',
 'With any set of base DOFs prescribed, the base-excited harmonic balance residual equals the free-DOF rows of the full-system equations of motion under the prescribed base motion (including mass, damping and stiffness coupling and nonlinear forces across the base), with exact Jacobians. The linear base frequency response computed with all modes solves that residual for systems without nonlinear forces, when one or several base DOFs move together.',
 ['inputs','configurations'],'all systems incl. coupled mass matrices, base flags, base motions, frequencies',
 'Tests use a single chain system with diagonal mass and one base DOF.',
 [VS],[('hbm_base_res, linear_frf_base',VS)])
p('C14','EPMC residual states the mass-normalised nonlinear mode conditions',
 'The EPMC residual equals the harmonic balance residual of the autonomous system with negative mass-proportional damping at physical amplitude 10^a times the mode coefficients (static loads kept), followed by the unit-mass normalisation of the first harmonic and the phase condition. Its Jacobians w.r.t. coefficients, frequency, damping and log-amplitude are exact, and the linear modes of a proportionally damped linear system satisfy it at every amplitude.',
 ['inputs','configurations'],'all systems, forces, harmonic lists, amplitudes, states',
 'Tests check a couple of systems and states.',
 [VS],[('epmc_res',VS)])
p('C15','VPRNM residuals encode superharmonic phase resonance exactly',
 'The VPRNM phase condition equals the documented inner product between the superharmonic response and the internal superharmonic force excited by the motion without that superharmonic (restricted by the optional filter and scale), and the full VPRNM residuals append it to the corresponding harmonic balance or amplitude/phase-controlled equations. Their Jacobians are exact and skipping gradients returns the same residual.',
 ['inputs','configurations'],'all systems, forces, harmonic lists, tracked superharmonics, filters, scales, states',
 'Tests check one or two nonlinearities and states; filters and scales are barely sampled.',
 [VS],[('vprnm_single_eqn, vprnm_res, vprnm_amp_phase_res',VS)])
p('C16','Linear frequency response solves the linear equation of motion',
 'For proportionally damped systems with all modes retained, the linear frequency response solves (K - w^2 M + i w C) X = F at each requested frequency for cosine and optional sine forcing, in the documented layout. It is linear in the force, agrees with a zero of the harmonic balance residual, and with fewer modes equals the truncated modal sum.',
 ['inputs','configurations'],'all symmetric positive definite systems, damping coefficients, frequencies, forces, mode counts',
 'Tests use one or two systems and frequency ranges.',
 [VS],[('linear_frf',VS)])
p('C17','Shooting residual and stability follow the flow of the ODE',
 'The shooting residual is the difference between the state after one forcing period of the full nonlinear equation of motion (all attached instantaneous displacement forces, harmonic forcing) and the initial state, with Jacobians consistent with the flow derivative to integrator accuracy. For linear systems it matches the matrix exponential, periodic solutions of harmonic balance are zeros of it, and the reported stability agrees with the Floquet multipliers.',
 ['inputs','configurations'],'all systems with zero, one or several nonlinear forces, forcings, frequencies, initial states',
 'Tests use a single oscillator with exactly one nonlinear force.',
 [VS,'tmdsimpy/postprocess/shooting.py'],[('shooting_res',VS),('time_stability','tmdsimpy/postprocess/shooting.py')])
p('C18','System-level static analysis and configuration act on all forces coherently',
 'The static residual is K u plus every attached force minus the load, with its exact Jacobian, and never changes history. Over any sequence of adding forces, history resets/updates, prestress switching, AFT start updates and damping changes, the system behaves as the sum of independent elements driven with the same operations, history updates store the evaluated state of every hysteretic element, and all damping dependent results use one current damping definition (which stays unchanged when nothing new is given).',
 ['histories','inputs'],'all operation sequences on systems with mixed instantaneous and hysteretic forces',
 'Tests run one fixed prestress sequence.',
 [VS],[('static_res, add_nl_force, init_force_history, update_force_history, set_prestress_mu, reset_real_mu, set_aft_initialize, set_new_C',VS)])
p('C19','Base solver solves, factors, conditions and decomposes correctly',
 'For any nonsingular matrix the linear solve and factor-then-solve give the solution, the generalised eigen-solver returns the requested ascending eigenpairs with mass-normalised vectors (never more than exist) irrespective of earlier calls, and a reported successful nonlinear solve satisfies the equations. Wrapping a function for conditioning rescales unknowns and residual so that residual and Jacobian stay consistent and its roots are the original roots scaled.',
 ['inputs','histories'],'all matrices, right-hand sides, index ranges, scalings (scalar and vector), call sequences',
 'Tests cover a handful of matrices; call-order effects and vector scalings are not tested.',
 ['tmdsimpy/solvers.py','tmdsimpy/jax/solvers.py'],[('lin_solve/lin_factor/lin_factored_solve/eigs/nsolve/conditioning_wrapper','tmdsimpy/solvers.py')])
p('C20','Parallel nonlinear solver stops exactly on its configured tolerances',
 'A nonlinear solve reports success only if one of the configured stopping tolerances (or, at the iteration limit, accepting tolerances), each measured by its documented quantity, is met by the last step, and it then returns a point solving the equations to that accuracy. Function and Jacobian evaluation counts follow the configured reform frequency, quasi-Newton steps and line search preserve the root, per-call tolerances do not leak into the configuration, and NaN residuals are never reported as converged.',
 ['inputs','configurations','histories'],'all smooth problems, starting points, tolerance/reform/line-search configurations, call sequences',
 'Tests run a few problems with a few configurations.',
 ['tmdsimpy/jax/solvers.py'],[('NonlinearSolverOMP.nsolve, line_search, _check_convg','tmdsimpy/jax/solvers.py')])
p('C21','Continuation returns only converged points on the solution branch',
 'Every point returned by a continuation run satisfies the continued equations (whatever scaling, verbosity, corrector or step control is used, and whatever fails along the way), the first point lies at the starting parameter value, and consecutive points respect the configured step bounds in scaled arc length. Solver failures shrink the step or end the run but never yield unconverged points.',
 ['inputs','configurations','fault_sequences'],'all curves with turning points, step configurations, scalings, corrector types and injected solver failures',
 'Tests follow a few smooth curves with mostly default settings and no failing steps.',
 ['tmdsimpy/continuation.py'],[('continuation/predict/correct_res','tmdsimpy/continuation.py')])
p('C22','Continuation keeps its direction, protocol and configuration limits',
 'A continuation run keeps the traversal direction through turning points, ends only past the target parameter value or at a configured limit (maximum steps, backtracking, minimum step), calls the callback once at start, once per accepted point and once at the end with the documented arguments, returns gradients that are tangents of the branch, and leaves the caller\'s inputs and configuration reusable so that the same run can be repeated with the same result. Predictor directions are unit tangents and corrector residuals and Jacobians match the documented arc-length constraints in both formulations.',
 ['inputs','configurations','histories'],'all branches, directions (forward/backward), repeated runs of one object, callbacks, step fractions',
 'Tests check final values on a few curves.',
 ['tmdsimpy/continuation.py'],[('predict/pseudo_arc_res/orthogonal_arc_res/correct_res/continuation','tmdsimpy/continuation.py')])
p('C23','Branch interpolation is exact for its polynomial class and hits the data',
 'Hermite interpolation and up-sampling of continuation results pass through the stored points, reproduce cubic branches exactly, and return rows in the requested order, and linear interpolation is exact for piecewise linear branches at any requested values. Up-sampling keeps the original points with the documented number of points in between, out-of-range requests of the linear interpolator are marked as not available rather than extrapolated, and inputs are not modified.',
 ['inputs'],'all monotone parameter grids (increasing), data, query points',
 'Tests interpolate a few fixed functions.',
 ['tmdsimpy/postprocess/continuation.py'],[('hermite_upsample, hermite_interp, linear_interp','tmdsimpy/postprocess/continuation.py')])
p('C24','EPMC reduced-order model reproduces single-mode forced responses',
 'For any EPMC backbone, forced responses predicted for a constant force or a constant controlled displacement satisfy the documented single nonlinear mode equation relating amplitude, frequency, damping and modal force at every returned point, and for a linear proportionally damped system exactly equal the single-mode linear response. Optional frequency/damping overrides are honoured, invalid branches are not returned, and inputs are unchanged.',
 ['inputs'],'all backbones, force vectors, harmonic lists, control points',
 'Tests compare a few points on two systems.',
 ['tmdsimpy/roms/epmc.py'],[('constant_force, constant_displacement','tmdsimpy/roms/epmc.py')])
p('C25','VPRNM reduced-order model combines its backbones consistently',
 'At every requested fundamental amplitude the VPRNM reduced-order model returns responses that equal the documented superposition of the interpolated fundamental EPMC mode and superharmonic EPMC mode driven by the VPRNM-identified internal force, with force magnitude satisfying the fundamental single-mode relation. Rescaling backbones, changing harmonic storage or adding extra frequencies does not change the response at shared points.',
 ['inputs'],'all consistent backbone sets, controlled harmonics, amplitudes, extra frequencies',
 'Tests check one Duffing-type system.',
 ['tmdsimpy/roms/vprnm.py'],[('constant_h1_displacement','tmdsimpy/roms/vprnm.py')])
p('C26','Predicted initial harmonic solutions are exact on linear systems',
 'For a linear proportionally damped system the predicted initial solution (for frequency, amplitude, amplitude-and-phase or superharmonic formulations) is a zero of the corresponding residual, with static displacement solved from the static load. For every formulation the layout matches that residual\'s unknown vector and inputs are unchanged.',
 ['inputs','configurations'],'all linear systems, loads, frequencies, control settings',
 'Tests check a few systems and options.',
 [HU],[('predict_harmonic_solution',HU)])
p('C27','Result callbacks record every continuation point faithfully',
 'Over any sequence of callback invocations, the saved continuation file holds exactly the points (and directions) passed in order, and the summary files hold one row per point whose columns equal the documented response quantities recomputed from the solution. Combining callbacks invokes each of them once, in order, with the same arguments.',
 ['histories','inputs'],'all sequences of points, harmonic lists, derivative orders, recovery vectors',
 'Only indirectly exercised by tests.',
 ['tmdsimpy/utils/continuation.py'],[('continuation_save, print_epmc_stats, print_hbm_amp_stats, print_hbm_amp_phase_stats, print_vprnm_stats, print_vprnm_amp_phase_stats, combine_callback_funs','tmdsimpy/utils/continuation.py')])
p('C28','Exported local forces are the forces used in the harmonic solution',
 'For any solution, the exported local displacement and force time series and harmonic coefficients of each nonlinear force are those of its local coordinates under the same motion: mapping the exported harmonic forces back through the force transforms and summing gives the total harmonic nonlinear force, and time series and coefficients are consistent. This holds for every force class that supports export and any mixture of them, for every way of configuring the initial slider position.',
 ['inputs','configurations'],'all mixtures of forces, motions, harmonic lists, slider initialisations',
 'Tests check one Jenkins and a friction element after an explicit initialisation.',
 ['tmdsimpy/postprocess/harmonic.py'],[('local_harmonic_forces','tmdsimpy/postprocess/harmonic.py')])
p('C29','Variable scaling for conditioning is positive and representative',
 'The harmonic-wise conditioning vector assigns every harmonic displacement the documented representative magnitude of its harmonic (bounded below by the given minimum, scalar or per-entry), keeps magnitudes of the appended scalar unknowns, is strictly positive with the length of the unknown vector, and does not modify its inputs. Harmonic solutions rescaled by it and back are unchanged.',
 ['inputs'],'all solutions, DOF counts, harmonic lists, numbers of appended unknowns, minimum values',
 'Tests check two examples.',
 [HU],[('harmonic_wise_conditioning',HU)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
    
import sys
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
