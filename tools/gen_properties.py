import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
IT="src/iter/"
p("C01","Repeating and decimating a stream are exact index maps",
"Repeating a stream m times yields input item floor(n/m) as output item n, and keeping every m-th item yields input item n*m, for endless streams and for finite ones (whose outputs have exactly L*m and ceil(L/m) items). Decimating by m what was repeated m times gives back the original stream.",
["inputs","configurations"],"every stream content, every factor m >= 1, every position; lengths enumerated",
"Doc tests sample one factor and one short integer range; the map must hold at every position for every factor.",
[IT+"inflate.rs",IT+"take_every.rs",IT+"mod.rs"],[("Inflate::next","src/iter/inflate.rs"),("Take::next","src/iter/take_every.rs")],
["items of the adaptor's output stream"],[("curr_copy","copies already given of the current item","src/iter/inflate.rs")])
p("C02","Chunking partitions a stream in order without losing or inventing items",
"Splitting a stream into chunks of m yields, as chunk n, the input items n*m .. n*m+m-1 in order. At the end of a finite stream the short remainder is yielded as it is by the plain form and padded to m with default values by the whole-chunk form; no chunk is empty and none consists of padding only.",
["inputs","configurations"],"every stream content, every chunk size m >= 1, every chunk index; finite lengths enumerated",
"Modem tests only use whole chunks of a few sizes; remainders and exact multiples decide whether data is lost or invented.",
[IT+"chunks.rs"],[("Chunks::next","src/iter/chunks.rs"),("WholeChunks::next","src/iter/chunks.rs")],["chunks of the output stream"])
p("C03","Integrators compute exact running and windowed sums",
"The running sum yields at position n the sum of items 0..n; integrate-and-dump yields at position n the sum of items n*m .. n*m+m-1 and nothing for an incomplete last window; scaling multiplies every item by the scalar. The vector forms do the same for every component independently.",
["inputs","configurations"],"every stream content, window m >= 1, position and (for the vector forms) number of components enumerated",
"Doc tests add up a run of ones; leakage between windows or components needs distinct items and several windows.",
[IT+"integrate.rs",IT+"scale.rs"],[("Integrate::next","src/iter/integrate.rs"),("IntegrateDump::next","src/iter/integrate.rs"),("Nintegrate::next","src/iter/integrate.rs"),("NintegrateDump::next","src/iter/integrate.rs"),("Scale::next","src/iter/scale.rs")],["items of the output stream"])
p("C04","Streaming convolution is linear convolution",
"Convolving a stream of L items with F taps yields the L+F-1 samples y[n] = sum over k of h[k] x[n-k], with items outside the stream taken as zero; an empty stream yields nothing. The multi-component form convolves every component with the same taps.",
["inputs","configurations"],"every stream content and every tap value; tap counts and lengths enumerated, endless streams at every position",
"The unit tests use four equal taps, which cannot tell the order of the taps or the alignment of the tail.",
[IT+"convolution.rs"],[("Convolver::next","src/iter/convolution.rs"),("Nonvolver::next","src/iter/convolution.rs")],["items of the output stream"],[("buffer","the newest items, newest first","src/iter/convolution.rs"),("drained","items given since the source ended","src/iter/convolution.rs")])
p("C05","Stream processing is lazy with bounded look-ahead",
"Building a modulator, demodulator or stream adaptor (all except the zero-phase Butterworth filter, which needs the whole signal) reads nothing from its input, and producing output item n reads no input item beyond those the item depends on (its own symbol, window or block). Endless inputs can therefore be processed.",
["inputs","histories"],"every input, every prefix of outputs enumerated per stage",
"Tests collect finite signals, which hides eager reading and unbounded look-ahead.",
["src/iter/mod.rs","src/bpsk.rs","src/qpsk.rs","src/cdma.rs","src/ofdm.rs","src/fsk.rs","src/fm.rs","src/fh.rs","src/csk.rs","src/dcsk.rs"],[("the iterator adaptors","src/iter/")],["how many items have been taken from the input after n outputs"])
p("C06","Everything except the noise and random-data sources is deterministic",
"Only the functions that add or generate noise and the random bit source draw entropy; every other public operation depends on its arguments alone, with frequency hopping and scrambling driven by generators with a fixed seed. No operation reads the clock, the environment, files, the network or mutable global state.",
["inputs","histories"],"every call of every function reachable from the crate's public items",
"A test that passes on one run says nothing about which calls can reach an entropy or environment source.",
["src/lib.rs","src/fh.rs","src/fh_ofdm_dcsk.rs","src/fh_css.rs"],[("seeded StdRng","src/fh.rs"),("thread_rng only in awgn, awgn_complex, awgn_py, pure_awgn, random_data","src/lib.rs")],["results of repeated calls with equal arguments"])
p("C07","The library contains no unchecked memory access or shared mutable state",
"No code of the library opts out of the compiler's memory-safety checks, dereferences raw pointers, or defines mutable global state. Distinct streams therefore never influence one another.",
["programs","schedules"],"every function body of the crate",
"Absence of undefined behaviour and of shared state is a property of all executions and schedules.",
["src/"],[("safe Rust throughout","src/")],["memory safety; independence of streams"])
p("C08","BPSK modulation: waveform, decision rule and exact inverse",
"The modulator maps bit n to +1 or -1 at baseband and to that sign times the carrier cos(2 pi fc t), t = sample index / sample rate, for sample_rate/symbol_rate samples at passband. Each receiver decides by the sign of the symbol or of the carrier correlation over exactly one symbol. Demodulating a modulated message returns exactly the message, for every message and length, whenever every symbol's carrier has nonzero energy.",
["inputs","configurations"],"every message, sample and symbol rate with whole samples per symbol, and carrier frequency",
"The unit tests use random messages at one rate and carrier; the claim is for all messages, all symbols and all rates.",
["src/bpsk.rs","src/iter/inflate.rs","src/iter/integrate.rs"],[("tx_bpsk_signal","src/bpsk.rs"),("rx_bpsk_signal","src/bpsk.rs"),("tx_baseband_bpsk_signal","src/bpsk.rs"),("rx_baseband_bpsk_signal","src/bpsk.rs")],["samples and decided bits"])
p("C09","QPSK modulation: waveform, decision rule and exact inverse",
"Bit pairs map to the two quadratures: the first bit's sign on the cosine (real part), the second bit's on minus the sine (imaginary part), amplitude sqrt 2 at baseband, for one symbol of samples at passband; an odd last bit is dropped. Each receiver decides the two bits by the signs of the two quadratures or of their correlations over exactly one symbol. At baseband always, and at passband for whole or half carrier cycles per symbol, demodulating a modulated message returns it.",
["inputs","configurations"],"every message; waveform and receiver at every rate and carrier; the passband inverse over the enumerated orthogonal configurations",
"The unit tests sample one configuration and random bits; a swap or sign error that cancels between the two sides stays invisible to a round trip.",
["src/qpsk.rs"],[("tx_qpsk_signal","src/qpsk.rs"),("rx_qpsk_signal","src/qpsk.rs"),("tx_baseband_qpsk_signal","src/qpsk.rs"),("rx_baseband_qpsk_signal","src/qpsk.rs")],["samples and decided bits"])
p("C10","CDMA spreads with the whole key on every bit and despreads to the message",
"Each data bit is spread over one full key period (chip n is bit floor(n/K) XOR key[n mod K]; at passband, the carrier symbol times the sign of the key chip), and the receiver aligned with the key undoes exactly that and decides by majority at baseband and correlation at passband. For every key and message, receiving what was sent with the same key returns the message.",
["inputs","configurations"],"every message and every key content; key lengths, rates and carriers enumerated at passband, any key length at baseband",
"Tests use Walsh keys and one rate; correctness must not depend on the key's content, length or phase.",
["src/cdma.rs"],[("tx_baseband_cdma","src/cdma.rs"),("rx_baseband_cdma","src/cdma.rs"),("tx_cdma_bpsk_signal","src/cdma.rs"),("rx_cdma_bpsk_signal","src/cdma.rs"),("tx_cdma_qpsk_signal","src/cdma.rs"),("rx_cdma_qpsk_signal","src/cdma.rs")],["chips, samples and decided bits"])
p("C11","OFDM baseband: carrier mapping, cyclic prefix and exact inverse",
"Data symbols are placed in order on the data carriers only, pilots and the centre carrier stay zero, the time symbol is the normalised inverse DFT of the shifted spectrum, and the cyclic prefix equals the last quarter of the symbol. Demodulating a modulated symbol stream returns exactly the symbols, with a partial last block padded with zeros.",
["inputs","configurations"],"every symbol stream content; carrier and pilot counts enumerated",
"The tests check one carrier layout with a round trip, which a consistent mistake on both sides passes.",
["src/ofdm.rs","src/lib.rs"],[("get_data_subcarriers","src/ofdm.rs"),("tx_baseband_ofdm_signal","src/ofdm.rs"),("rx_baseband_ofdm_signal","src/ofdm.rs")],["time samples and recovered symbols"])
p("C12","Frequency hopping: both ends hop together, once per bit, and invert exactly",
"Symbol k of a frequency-hopped message is sent on the k-th frequency of a pattern determined by the band, the number of frequencies and a fixed seed, for exactly one symbol of samples; the receiver correlates each symbol with the same frequency. Receiving what was sent returns the message for every message.",
["inputs","configurations","histories"],"every message and position in the hop pattern, across reshuffles; rates and frequency counts enumerated",
"Tests run one random message; desynchronisation after a reshuffle or at another frequency count is outside their reach.",
["src/fh.rs"],[("tx_fh_bpsk_signal","src/fh.rs"),("rx_fh_bpsk_signal","src/fh.rs"),("HopTable","src/fh.rs")],["samples and decided bits"])
p("C13","Chaos shift keying sends the right chaotic sample and inverts exactly",
"Chaos shift keying sends, for bit n, the n-th iterate of one of two logistic maps chosen by the bit; differential chaos shift keying sends the n-th iterate as reference followed by the same value with the bit's sign. The receivers decide by the closer of the two sequences, respectively by the sign of the product of reference and information sample.",
["inputs"],"every message and every position",
"A round trip with random bits cannot tell that transmitter and receiver share a mistake, or which sample carries what.",
["src/csk.rs","src/dcsk.rs","src/chaos/logistic_map.rs"],[("tx_baseband_csk","src/csk.rs"),("rx_baseband_csk","src/csk.rs"),("tx_baseband_dcsk","src/dcsk.rs"),("rx_baseband_dcsk","src/dcsk.rs")],["samples and decided bits"])
p("C14","Bits and bytes convert losslessly and FEC frames carry the data in order",
"Packing bits into bytes puts bit i at weight 2^i, pads the last byte with zeros, and unpacking inverts packing on every byte. The error-correcting layer encodes every 7 data bytes (fewer at the end) with 5 check bytes and, on a clean channel, decoding returns the data bytes in order.",
["inputs"],"every bit sequence (lengths enumerated) and every byte value",
"Random bit strings of one length cannot cover every byte value, remainder and frame boundary.",
["src/lib.rs","src/bch.rs"],[("bool_to_u8","src/lib.rs"),("u8_to_bools","src/lib.rs"),("bools_to_u8s","src/lib.rs"),("bch_stream_encode","src/bch.rs"),("bch_stream_decode","src/bch.rs")],["bytes and bits"])
p("C15","FSK and FM modulators produce the specified instantaneous frequency",
"The FSK modulators send, for one symbol of samples per bit, the cosine of the frequency selected by the bit on one common time base (sample index / sample rate); carrier-relative FSK uses the carrier plus or minus 2.5 percent. FM sends the carrier with the running sum of the held message scaled by 0.05 as phase deviation.",
["inputs","configurations"],"every message, rate with whole samples per symbol, and frequency",
"There is no receiver in the library for most of these and tests do not look at the samples.",
["src/fsk.rs","src/fm.rs"],[("tx_bfsk_signal","src/fsk.rs"),("tx_mfsk_signal","src/fsk.rs"),("tx_fsk_signal","src/fsk.rs"),("tx_fsk","src/fm.rs"),("tx_fm","src/fm.rs")],["samples"])
p("C16","OFDM passband sends the baseband samples on the carrier",
"The passband OFDM modulator holds each baseband sample for one symbol period and sends its real part on cos(2 pi fc t) and its imaginary part on minus sin(2 pi fc t), with t the sample index over the sample rate. Its baseband is the OFDM modulation of the QPSK symbols of the message.",
["inputs","configurations"],"every message; carrier counts and rates enumerated, every carrier frequency",
"The round-trip test hides errors common to both sides and looks at one configuration.",
["src/ofdm.rs"],[("tx_ofdm_qpsk_signal","src/ofdm.rs")],["samples"])
p("C17","Invalid configurations are rejected and valid ones are accepted",
"Wherever a modulator or receiver states that the sample rate must be a whole multiple of the symbol rate, that the carrier or highest frequency (in whole Hz) must not exceed half the sample rate, or that the chip rate must not exceed half the sample rate and chips must be whole samples, it rejects exactly the configurations that violate this, when it is called, before producing a sample and in every build profile. A chaotic generator rejects initial values outside its interval and a Walsh code generator rejects sizes that are not powers of two.",
["configurations"],"every frequency and rate (symbolic where the guard is a comparison; enumerated rates for divisibility)",
"Tests use valid configurations only, so a dropped or weakened guard changes no test result.",
["src/bpsk.rs","src/cdma.rs","src/fh.rs","src/fsk.rs","src/fh_css.rs","src/ofdm.rs","src/chaos/","src/hadamard.rs","src/ssca.rs"],[("assert! guards","at the top of each function")],["whether the call panics"])
p("C18","Walsh codes are mutually orthogonal, balanced and never the constant code",
"For every power-of-two size, any two distinct rows of the code matrix agree in exactly half of their positions, and every code handed out is a non-constant row with as many ones as zeros. Code indices wrap around so that any index is accepted and n consecutive indices give distinct codes for n up to size-1.",
["inputs","configurations"],"sizes enumerated; every code index up to several wraps, and the wrap rule",
"The test's parity check is weaker than orthogonality and does not look at the codes handed out.",
["src/hadamard.rs"],[("HadamardMatrix::new","src/hadamard.rs"),("HadamardMatrix::key","src/hadamard.rs")],["matrix entries, codes"])
p("C19","A hop pattern uses every frequency exactly once per cycle",
"Every cycle of N hops is a permutation of the N evenly spaced frequencies low + i (high-low)/N, reshuffled before each cycle by a generator seeded with the given seed. Equal parameters give equal patterns.",
["inputs","configurations","histories"],"every seed, band and number of cycles; N enumerated",
"The test checks five cycles of one table.",
["src/fh.rs","src/lib.rs"],[("HopTable::new","src/fh.rs"),("HopTable::next","src/fh.rs"),("linspace","src/lib.rs")],["the hop sequence"],[("idx","position within the cycle","src/fh.rs")])
p("C20","Chaotic maps and generators iterate the stated recurrences inside their interval",
"The logistic, cubic, tent and sign-shift maps compute mu x (1-x), 4x^3-3x up to the library's coefficients (3x^3-2x), 2 mu (1-|x|) - 1 and mu x plus or minus 1, and a generator yields f(x0), f(f(x0)), ... without end. The logistic map for mu in [0,4] keeps [0,1] and the cubic map keeps [-1,1].",
["inputs","histories"],"every start value and every iterate",
"Sampled orbits cannot show that no start value escapes, and short orbits do not reveal a skipped or doubled iterate.",
["src/chaos/"],[("logistic_map","src/chaos/logistic_map.rs"),("chebyshev","src/chaos/chebyshev.rs"),("tent_map","src/chaos/mod.rs"),("bernoulli_map","src/chaos/mod.rs")],["iterates"])
p("C21","Chirps sweep linearly between their end frequencies for exactly one period",
"A linear chirp has sample_rate/chirp_rate samples cos(2 pi (f0 + k t/2) t) with k = (f1-f0) * chirp_rate, so it starts at f0 and ends at f1; centred up- and down-chirps sweep center -+ bandwidth/2 in the stated direction. Chirp spread spectrum sends for each bit one chirp around the hop frequency, of width band/num_freqs, rising for ones and falling for zeros.",
["inputs","configurations"],"every frequency, rate and message; rates enumerated for chirp spread spectrum",
"No test looks at the samples.",
["src/fh_css.rs"],[("linear_chirp","src/fh_css.rs"),("linear_upchirp_centered","src/fh_css.rs"),("linear_downchirp_centered","src/fh_css.rs"),("tx_fh_css_signal","src/fh_css.rs")],["samples"])
p("C22","The noise channel is additive, scaled by sigma and independent per sample",
"Adding noise preserves the number and order of samples and adds to each sample its own fresh zero-mean Gaussian draw of standard deviation sigma, independent for real and imaginary part; the pure noise source returns exactly the requested number of such draws, and the random data source the requested number of bits, each its own draw. With sigma zero the channel is the identity.",
["inputs","histories"],"every signal, length and sigma >= 0",
"Statistical tests of one sigma cannot tell a reused draw, a draw shared between quadratures or a dropped sample.",
["src/lib.rs"],[("awgn","src/lib.rs"),("awgn_complex","src/lib.rs"),("awgn_py","src/lib.rs"),("pure_awgn","src/lib.rs"),("random_data","src/lib.rs")],["output samples as a function of input and draws"])
p("C23","Error-rate, energy and power metrics compute their definitions",
"The bit error rate is the number of differing positions over the common prefix divided by that prefix's length; energy is the sum of squares over the sample rate, power that divided by the sample count, average energy the mean of squares; the Python-facing twins compute the same function as their Rust counterparts.",
["inputs"],"every signal, bit string, length and rate",
"Tests use whole sine periods and equal lengths, for which several wrong formulas agree.",
["src/lib.rs"],[("ber","src/lib.rs"),("energy","src/lib.rs"),("power","src/lib.rs"),("avg_energy","src/lib.rs"),("energy_detector","src/lib.rs")],["returned numbers"])
p("C24","Numeric helpers: decibels, error function, grids, windows and spectrum shift",
"Decibel conversion and its inverse are 10 log10 x and 10^(x/10); the error function is odd, its complement is one minus it, and it follows the stated rational approximation; an n-point grid is start + i (stop-start)/n; the Hamming windows are 0.54 - 0.46 cos(2 pi i/n); the spectrum shift rotates by half the length, rounded up.",
["inputs"],"every argument and length",
"There are no tests of most of these, or one sampled value.",
["src/lib.rs"],[("db, undb","src/lib.rs"),("erf, erfc","src/lib.rs"),("linspace","src/lib.rs"),("hamming_window","src/lib.rs"),("fftshift","src/lib.rs")],["returned values"])
p("C25","Detectors compute their statistics from the spectral correlation",
"The max-cut statistic is 10 log10 of the largest squared magnitude of the spectral correlation matrix and the DCS statistic 10 log10 of the largest ratio of column energy to the first row's energy; the energy detector compares or reports the signal energy. The forms taking a signal equal the forms taking a matrix, applied to the signal's spectral correlation with 4096 by 64 resolution.",
["inputs"],"every signal and matrix",
"Monte-Carlo detection curves do not pin down the statistic.",
["src/lib.rs","src/willie.rs"],[("max_cut_detector","src/lib.rs"),("dcs_detector","src/lib.rs"),("energy_detector","src/lib.rs")],["the statistic"])
p("C26","Spectral correlation follows the strip spectral correlation analyzer",
"Entry (q,k) of the spectral correlation matrix is the shifted N-point DFT over i of the product of the centre sample, the second window and the phase-corrected, shifted, windowed N'-point DFT of the signal around i. The mapped form places each entry at its frequency and cycle-frequency bin.",
["inputs","configurations"],"every signal; resolutions enumerated",
"The tests only plot or time it.",
["src/ssca.rs"],[("ssca_base","src/ssca.rs"),("ssca_mapped","src/ssca.rs")],["matrix entries"])
p("C27","Python bindings expose every function and forward its arguments unchanged",
"Every Python-facing function is registered with the module and returns exactly what the corresponding Rust operation yields for the same arguments in the same roles; held chaos signals are held for one symbol. No argument is swapped, dropped, scaled or defaulted on the way.",
["inputs","configurations"],"every argument of every binding",
"The Rust tests do not go through the bindings.",
["src/lib.rs"],[("module_with_functions","src/lib.rs")],["values returned to Python"])
p("C28","Correlation receivers decide from exactly their own symbol's samples",
"The passband OFDM receiver turns each symbol period into one complex sample, the correlation of exactly that period's samples with the carrier's cosine and negated sine, removes prefix and transform, and decides each carrier by quadrant; with a whole number of carrier half-cycles per symbol (away from zero and half the sample rate) it returns exactly the transmitted bits. The non-coherent FSK receiver decides each symbol for the tone (carrier plus or minus 2.5 percent) with the larger squared correlation magnitude. The chaos receivers decide for the nearer chaotic sample and by the sign of reference times data.",
["inputs","configurations"],"every signal and message; layouts, samples per symbol and (for the inverse) carriers enumerated",
"The tests run one high-rate configuration with tolerance for bit errors, so a shifted window or a swapped tone can pass.",
["src/ofdm.rs","src/fm.rs","src/csk.rs","src/dcsk.rs"],[("rx_ofdm_qpsk_signal","src/ofdm.rs"),("rx_fsk","src/fm.rs"),("rx_baseband_csk","src/csk.rs"),("rx_baseband_dcsk","src/dcsk.rs")],["decided bits"])
p("C30","The spectral band-pass keeps exactly the bins inside the band",
"Each block of the band-pass output is the normalised inverse real DFT of the block's spectrum with every bin whose frequency i * sample_rate / length lies outside [low, high] set to zero and all others unchanged. Blocks are independent and the output has as many samples as the input.",
["inputs","configurations"],"every block content and band; block length enumerated",
"The test allows 40 percent amplitude error on one sine.",
["src/bpf.rs"],[("bandpass","src/bpf.rs")],["output samples"])
p("C33","FH-OFDM-DCSK transmits reference and spread data on scrambled carriers",
"Each block sends one chaotic reference and seven chaos-multiplied BPSK symbols on eight carriers permuted by a seeded generator, transformed by the normalised inverse DFT of the shifted carriers with a two-sample cyclic prefix. The passband forms hold each sample for one symbol period on the (hopped) carrier. The receiver drops the prefix, transforms, undoes the very permutations the transmitter drew, block by block, and decides each bit by the sign of the correlation of its carrier with the reference carrier.",
["inputs","histories"],"every message and block",
"The only round-trip test is ignored because the receiver does not invert it.",
["src/fh_ofdm_dcsk.rs"],[("tx_baseband_fh_ofdm_dcsk_signal","src/fh_ofdm_dcsk.rs"),("tx_fh_ofdm_dcsk_signal","src/fh_ofdm_dcsk.rs"),("tx_fh_ofdm_dcsk_signal_2","src/fh_ofdm_dcsk.rs"),("rx_baseband_fh_ofdm_dcsk_signal","src/fh_ofdm_dcsk.rs")],["samples"])
p("C40","Measured bit error rates follow theory",
"Over an additive white Gaussian noise channel the measured bit error rate of each modem converges to the theoretical curve for its modulation.",
["inputs"],"every signal-to-noise ratio, in probability","Tests sample a few points with a loose tolerance.",
["tests/ber.rs","kom_py/ber_theory.py"],[("modems and awgn","src/")])
p("C41","CDMA users with distinct Walsh codes do not disturb each other",
"The sum of signals sent with distinct Walsh codes demodulates, with each code, to that user's message.",
["inputs","configurations"],"every set of users and messages","Tests sum a few users' random messages.",
["src/cdma.rs","src/hadamard.rs"],[("orthogonal codes","src/hadamard.rs")])
p("C42","Non-coherent FSK and FH-OFDM-DCSK receivers recover the message",
"Receiving what these modulators send returns the message.",
["inputs","configurations"],"every message and valid configuration","Tests run one configuration, or are ignored.",
["src/fm.rs","src/fh_ofdm_dcsk.rs"],[("rx_fsk","src/fm.rs"),("rx_baseband_fh_ofdm_dcsk_signal","src/fh_ofdm_dcsk.rs")])
p("C43","The Butterworth band-pass attenuates out-of-band signals and keeps in-band ones",
"The filter's magnitude response is that of the stated Butterworth band-pass, applied forward and backward.",
["inputs","configurations"],"every band and signal","Tests plot it.",
["src/bpf.rs"],[("butterpass","src/bpf.rs")])
p("C44","The normality detector accepts Gaussian noise and rejects signals",
"The detector's p-value test has the stated false-alarm rate on noise and rejects modulated signals.",
["inputs"],"every signal, in probability","Tests sample a few signals.",
["src/willie.rs"],[("normaltest","src/willie.rs")])
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
