CSC_WHY = ("The bench pushes one lena picture through and looks at the plots: it samples a few thousand of the 2^24 colours "
           "under one schedule, and asserts nothing numeric.")

prop("C01", "RGB to YCbCr conversion is exact over the whole colour cube",
     "For every RGB pixel accepted by the RGB-to-YCbCr converter, the luma and chroma it delivers equal the documented "
     "fixed-point BT.601-style equations (coefficients quantised to the configured width) including offset and saturation to the "
     "legal range, and stay within about two LSB of the real-valued equations. It holds for each pixel independently of its neighbours.",
     ["inputs", "configurations"], "every 8-bit RGB triple; random triples at other sample and coefficient widths; any pixel sequence",
     CSC_WHY, ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/common.py"],
     [("pipelined fixed-point datapath", "litevideo/csc/rgb2ycbcr.py: RGB2YCbCrDatapath"), ("coefficient quantisation", "litevideo/csc/rgb2ycbcr.py: rgb2ycbcr_coefs"), ("saturation", "litevideo/csc/common.py: saturate")],
     "differential monitor against an exact fixed-point model over all 2^24 inputs",
     "Exhaustive over 8-bit colours (each in one neighbourhood), sampled at other widths.", ["source y/cb/cr"])

prop("C02", "YCbCr to RGB conversion is exact and saturates over the whole cube",
     "For every YCbCr pixel accepted by the YCbCr-to-RGB converter, the RGB it delivers equals the documented fixed-point "
     "equations with saturation to the component range (never wrapping), and stays within a few LSB of the real-valued equations. "
     "It holds for each pixel independently of its neighbours, also for out-of-gamut YCbCr values.",
     ["inputs", "configurations"], "every 8-bit YCbCr triple; random triples at other widths; any pixel sequence",
     CSC_WHY, ["litevideo/csc/ycbcr2rgb.py", "litevideo/csc/common.py"],
     [("pipelined fixed-point datapath", "litevideo/csc/ycbcr2rgb.py: YCbCr2RGBDatapath"), ("saturation", "litevideo/csc/common.py: saturate")],
     "differential monitor against an exact fixed-point model over all 2^24 inputs",
     "Exhaustive over 8-bit YCbCr values, sampled at other widths.", ["source r/g/b"])

prop("C03", "Colour round trips are near-lossless",
     "A pixel converted from RGB to YCbCr and back (directly, or with 4:2:2 subsampling in between for pairs of equal pixels) "
     "returns each component within -3..+1 of its original value, and grey pixels keep equal components. The order and number "
     "of pixels is unchanged.",
     ["inputs", "schedules"], "every 8-bit RGB triple; any valid/ready schedule of the chain",
     CSC_WHY, ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr2rgb.py", "litevideo/csc/ycbcr444to422.py", "litevideo/csc/ycbcr422to444.py"],
     [("forward and inverse coefficient sets", "litevideo/csc/rgb2ycbcr.py, litevideo/csc/ycbcr2rgb.py")],
     "bounded-error monitor on the composed gateware, exhaustive over colours",
     "Exhaustive over 8-bit colours for the direct chain, sampled with 4:2:2 resampling.", ["source of the last block"])

prop("C04", "Processing blocks are lossless streams under any handshake schedule",
     "Every colour-conversion, resampling and floating-point block delivers exactly one output per accepted input, in order, with "
     "the packet markers of its input and the same values as at full speed, however its input and output handshakes are interleaved; "
     "a stalled output is held stable, no block deadlocks, and each sustains one pixel per cycle. After a reset in mid-stream it "
     "behaves as freshly started.",
     ["schedules", "inputs", "fault_sequences"], "any valid/ready schedule, any idle prologue, a reset at any cycle, any packet framing",
     "The benches use one random stream/logger rate, never check first/last, and never reset; schedules are unbounded.",
     ["litevideo/csc/*.py", "litevideo/float_arithmetic/floatadd.py", "litevideo/float_arithmetic/floatmult.py"],
     [("PipelinedActor busy/ce handshake", "each wrapper class"), ("buffered pair assembly", "litevideo/csc/ycbcr444to422.py, ycbcr422to444.py")],
     "online stream monitor (order, conservation, stability, liveness) under adversarial handshakes and resets",
     "Random, bursty, alternating and sparse handshake schedules with garbage on idle inputs.", ["sink/source endpoints"])

prop("C05", "4:4:4 to 4:2:2 keeps luma and averages the chroma of each pair",
     "For each consecutive pair of pixels of the stream, the 4:2:2 output carries both lumas unchanged, the first sample the mean (rounded "
     "down) of the pair's Cb and the second that of the pair's Cr. Pairing follows the position in the stream, not the cycle in which pixels arrive.",
     ["inputs", "schedules"], "any stream of whole pairs, any valid/ready schedule, every chroma pair",
     "The bench resamples one picture back and forth at one schedule and asserts nothing.",
     ["litevideo/csc/ycbcr444to422.py"], [("pair accumulation and alternation", "litevideo/csc/ycbcr444to422.py")],
     "differential stream monitor", "All 2^16 chroma pairs, sampled schedules.", ["source y/cb_cr"])

prop("C06", "4:2:2 to 4:4:4 replicates each pair's chroma and restarts cleanly",
     "For each pair of 4:2:2 samples, both output pixels carry their own luma, the Cb of the pair's first sample and the Cr of its second, "
     "whatever the handshake schedule. A restart request at any cycle makes the next accepted sample the first of a pair.",
     ["inputs", "schedules", "histories"], "any stream, any valid/ready schedule, a restart at any cycle",
     "The bench never restarts the block and runs one schedule.",
     ["litevideo/csc/ycbcr422to444.py"], [("parity tracking", "litevideo/csc/ycbcr422to444.py: YCbCr422to444")],
     "differential stream monitor with restarts injected at random cycles", "Sampled schedules and restart points.", ["source y/cb/cr"])

prop("C07", "8-bit and half-float pixels convert exactly both ways",
     "Every 8-bit component converts to the non-negative half-float value pixel/256 and every half float in [0, 1] converts back to the 8-bit "
     "component it denotes, 1.0 saturating to full scale, so the round trip is the identity. The look-up variant agrees with the computed one.",
     ["inputs", "schedules"], "every 8-bit value and every half float in [0,1] on every channel, any schedule",
     "The benches convert a picture and display it; sign, zero and full-scale encodings are not looked at.",
     ["litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py"], [("leading-one normalisation", "litevideo/csc/rgb2rgb16f.py"), ("denormalisation shift", "litevideo/csc/rgb16f2rgb.py")],
     "exhaustive differential monitor", "Exhaustive over values per channel.", ["source rf/gf/bf, r/g/b"])

prop("C08", "Half-precision multiplication is exact up to truncation",
     "For all non-negative finite half-float operands whose exact product is below 65536, the multiplier delivers the exact product truncated to "
     "half precision, including zero and subnormal operands and results, independently of the operands before and after it.",
     ["inputs", "schedules"], "operand pairs over the whole non-negative finite domain, consecutive pairs different, any schedule",
     "The bench multiplies a dozen hand-picked pairs.",
     ["litevideo/float_arithmetic/floatmult.py"], [("normalise, multiply, align pipeline", "litevideo/float_arithmetic/floatmult.py: FloatMultDatapath")],
     "exhaustive differential monitor against exact integer arithmetic", "Exhaustive over all pairs of non-negative finite operands; order, neighbours and schedules sampled.", ["source.out"])

prop("C09", "Half-precision addition is exact up to truncation",
     "For all non-negative finite half-float operands whose exact sum is below 65536, the adder delivers the exact sum truncated to "
     "half precision, including zero and subnormal operands, independently of the operands before and after it.",
     ["inputs", "schedules"], "operand pairs over the whole non-negative finite domain, consecutive pairs different, any schedule",
     "The bench adds a dozen hand-picked pairs.",
     ["litevideo/float_arithmetic/floatadd.py"], [("align, add, normalise pipeline", "litevideo/float_arithmetic/floatadd.py: FloatAddDatapath")],
     "exhaustive differential monitor against exact integer arithmetic", "Exhaustive over all pairs of non-negative finite operands; order, neighbours and schedules sampled.", ["source.out"])

OUT_WHY = ("The only bench of the output path cannot even be imported here (core_tb needs a LiteDRAM class that no longer exists) and would "
           "dump frames of one geometry and look at them; histories of parameter writes, memory stalls and clock ratios are unbounded.")

prop("C21", "Video timing follows the programmed frame parameters exactly",
     "For every legal set of frame parameters the timing generator produces, sample by sample, the raster they define: data enable exactly on "
     "the hres x vres active samples, hsync and vsync exactly within their start/end counts, (hscan+1) x (vscan+1) samples per frame, the end of "
     "frame marked on the last sample only. Consecutive frames follow without a gap, a new set of parameters applies from the first sample of "
     "a frame, and stalls or pauses between parameter sets do not alter the raster.",
     ["configurations", "schedules", "histories"], "every legal parameter set (0 < res <= sync start < sync end <= scan), any downstream stalls, any sequence of sets with or without pauses",
     OUT_WHY, ["litevideo/output/core.py", "litevideo/output/common.py"],
     [("counters and comparators", "litevideo/output/core.py: TimingGenerator")],
     "trace monitor against an independently computed raster",
     "Small and boundary geometries, standard video modes and 12-bit extremes; legal parameters only.", ["TimingGenerator.source"])

prop("C22", "Every active sample shows the right memory word of the frame",
     "In every mode the k-th active sample of a frame carries the memory word at base + k (k counted over active samples, or over all samples in raw mode), "
     "for every geometry, base address, FIFO depth, clock ratio, memory latency and stall pattern, and any downstream stalls: starvation delays samples "
     "but never drops, duplicates or shifts them. Only words inside the frame's region are fetched, and no word arrives without room for it.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "any legal frame parameters and base, any memory latency/stall/refresh pattern, any downstream stalls, any sys/pixel clock ratio",
     OUT_WHY, ["litevideo/output/core.py"],
     [("DMA reader address generation", "litevideo/output/core.py: DMAReader"), ("pairing of timing and data", "litevideo/output/core.py: VideoOutCore")],
     "trace monitor with self-identifying memory contents and an adversarial DRAM controller model",
     "Sampled geometries, clock ratios and stall patterns.", ["VideoOutCore.source", "dram port"])

prop("C23", "Frame parameters take effect atomically, at frame boundaries only",
     "While video runs, software may rewrite base address and timing registers at any instant: every displayed frame is entirely fetched and scanned with one "
     "set of parameters that was in effect (no tearing, no mixing of the old base with new timing), sets come into use in the order they were written, and the "
     "latest one does within a bounded number of frames.",
     ["histories", "interleavings", "schedules"], "any sequence of register writes at any instants, any clock ratio, any memory and downstream stalls",
     OUT_WHY, ["litevideo/output/core.py"],
     [("parameter FIFO from the CSR to the pixel clock domain", "litevideo/output/core.py: Initiator"), ("dispatch to timing and DMA", "litevideo/output/core.py: VideoOutCore")],
     "trace monitor that decides whether the delivered frames are explained by the history of register writes",
     "Sampled write histories; staleness bound of 9 frames.", ["VideoOutCore.source", "CSR bus"])

prop("C24", "Disabling drains, restarting is clean, underflows are counted exactly",
     "After the initiator is disabled, the core finishes whole frames, and within a bounded number of them goes idle: no output samples, no memory commands. "
     "Re-enabling at any time, with the same or other parameters, yields whole and correctly aligned frames again; words fetched beyond the active area are gone once idle. The underflow counter counts exactly the "
     "cycles in which no sample was available since it was enabled and is cleared when disabled.",
     ["histories", "crash_points", "schedules"], "any sequence of enable/disable/parameter writes at any instants, any memory starvation, clock ratio and downstream stalls",
     OUT_WHY, ["litevideo/output/core.py"],
     [("flush when disabled", "litevideo/output/core.py: VideoOutCore"), ("underflow counter and its clock crossing", "litevideo/output/core.py: VideoOutCore")],
     "trace monitor over random enable/disable histories; counter bracketed by observed starved cycles",
     "Sampled histories; drain bound of 10 frames; counter compared within its clock-crossing delay.", ["VideoOutCore.source", "dram port", "CSR bus"])

RX_WHY = ("There is no test of the receive path at all: nothing in it is executed by the suite, and its guarantees quantify over streams, skews, clock "
          "ratios and histories.")

prop("C10", "TMDS encoding follows the DVI algorithm with exact running disparity",
     "For every sequence of pixel values, control bits and data enable, each channel's encoder emits the symbol the DVI 1.0 algorithm prescribes, "
     "including the running disparity carried from pixel to pixel and cleared in blanking: control symbols map control bits exactly, data symbols "
     "decode to the input value, and the wire stays DC balanced within the algorithm's bound.",
     ["inputs", "histories"], "every input sequence: every pixel value at every reachable disparity, active and blanking periods of any length",
     "No test touches the encoder; its output depends on the whole history of the line.", ["litevideo/output/hdmi/encoder.py"],
     [("transition minimisation", "litevideo/output/hdmi/encoder.py: stages 1-3"), ("disparity bookkeeping", "litevideo/output/hdmi/encoder.py: stage 4")],
     "differential trace monitor against the DVI 1.0 algorithm plus an independent disparity tracker",
     "Nearly all (value, disparity) pairs are visited in each run.", ["Encoder.out"])

prop("C11", "TMDS decoding is exact and inverts the encoder",
     "Every ten-bit symbol decodes to the data enable, pixel value, control bits and raw word the DVI standard defines, in order and with one common "
     "delay; during active data the control outputs keep the last control value. Encoder followed by decoder is the identity on every pixel and control sequence.",
     ["inputs", "histories"], "all 1024 symbols in any sequence; every encoder input sequence",
     RX_WHY, ["litevideo/input/decoding.py", "litevideo/output/hdmi/encoder.py"],
     [("symbol decoding", "litevideo/input/decoding.py: Decoding")],
     "differential trace monitor, loopback identity monitor", "All symbols; sampled sequences.", ["Decoding.output"])

prop("C12", "Character alignment locks at any bit offset and only on real controls",
     "Wherever the serial stream is cut into words, after a run of the required number (plus one) of consecutive control symbols the recovered words are exactly the "
     "transmitted symbols at a constant delay, until the next bit slip; shorter control bursts and accidental patterns never move the alignment, "
     "and the status registers report lock and position truthfully.",
     ["inputs", "histories", "fault_sequences"], "every bit offset, any slip history, any data, any burst length, several required-control settings",
     RX_WHY, ["litevideo/input/charsync.py"],
     [("control search and counting", "litevideo/input/charsync.py: CharSync")],
     "trace monitor over bit-level streams with slips and hostile bits", "Sampled histories, all offsets.", ["CharSync.data", "CharSync.synced"])

prop("C13", "Channel skew is removed and the synced flag is truthful",
     "For every inter-channel skew up to depth-2 words, within a few blanking intervals the channel outputs are exact copies of their inputs with their data enables "
     "aligned, and stay so until the skew changes, after which they re-align by themselves. The synced flag is never set while channels disagree or input is "
     "invalid, and is set when all show control symbols.",
     ["inputs", "histories", "fault_sequences", "configurations"], "every skew vector, skew jumps in mid-stream, any line structure with blanking longer than the buffers, several depths and channel counts",
     RX_WHY, ["litevideo/input/chansync.py"],
     [("per-channel delay buffers", "litevideo/input/chansync.py: _SyncBuffer"), ("stall until all channels show control", "litevideo/input/chansync.py: ChanSync")],
     "trace monitor on the de-skewed channels", "Sampled skews and histories; convergence bound of 5 blanking intervals.", ["ChanSync.data_out*", "ChanSync.chan_synced"])

prop("C14", "Sync polarity is recovered and video stays aligned",
     "Whatever the polarity of the transmitted syncs and whatever mode or polarity switches occur, from the first complete active line on, hsync and vsync come out "
     "active high, exactly aligned with data enable, pixel colours, valid and the raw symbols of the recovered video, in both DVI and HDMI mode.",
     ["inputs", "configurations", "histories"], "every geometry with a front porch, all four polarities, any switch history",
     RX_WHY, ["litevideo/input/analysis.py"], [("polarity sampled at the end of active data", "litevideo/input/analysis.py: SyncPolarity")],
     "trace monitor against the transmitted raster", "Sampled geometries and histories.", ["SyncPolarity outputs"])

prop("C15", "Resolution registers report the active size of the signal",
     "After a whole frame of any mode, the detection registers read exactly its active width and height and keep doing so while the mode lasts; after a mode switch "
     "they read the new size within two frames, and zero without signal.",
     ["inputs", "histories"], "every geometry below 2048x2048, any sequence of modes and signal losses at any point of a frame",
     RX_WHY, ["litevideo/input/analysis.py"], [("line and frame counters", "litevideo/input/analysis.py: ResolutionDetection")],
     "trace monitor against the transmitted raster", "Small, standard and extreme modes.", ["hres/vres status"])

prop("C16", "Captured frames are packed into memory words without loss or shift",
     "In RGB and YCbCr 4:2:2 mode and for every word width, the words delivered for a frame are exactly its active pixels, in order, encoded as documented "
     "(4:2:2 chroma averaged over pairs counted from the start of each line) and packed with the first pixel in the most significant lanes. The first word of every frame, and no other, carries the "
     "start-of-frame marker, also after signal losses in mid-frame and mode switches.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "any geometry and mode history, any signal loss, any clock ratio, any reader stall within the FIFO",
     RX_WHY, ["litevideo/input/analysis.py", "litevideo/csc/ycbcr444to422.py", "litevideo/csc/rgb2ycbcr.py"],
     [("pipeline delay matching and word packing", "litevideo/input/analysis.py: FrameExtraction"), ("clock-crossing FIFO", "litevideo/input/analysis.py: FrameExtraction")],
     "conservation and content monitor on the memory words against the transmitted pixels", "Sampled geometries, clock ratios and stalls; whole words per frame.", ["FrameExtraction.frame"])

prop("C17", "Lost capture words are reported exactly, and loss does not corrupt the rest",
     "When memory cannot keep up, words are dropped but never reordered, duplicated or altered, markers stay on the first words of frames, and later frames are complete again. The overflow "
     "flag reads set if words were lost since it was last cleared and clear otherwise, with no report lost to a race between clearing and losing: a word refused at the third pixel clock edge after the clear or later is always reported.",
     ["schedules", "interleavings", "fault_sequences"], "any reader stall pattern, any instants of polls and clears, any clock ratio and FIFO depth",
     RX_WHY, ["litevideo/input/analysis.py"], [("overflow flag, clear and acknowledge clock crossings", "litevideo/input/analysis.py: FrameExtraction")],
     "log monitor: subsequence matching of delivered words, flag readings bracketed by observed losses", "Sampled stall and poll histories; with injected metastability readings near a loss are not judged (the race jobs judge them to the clock edge without).", ["FrameExtraction.frame", "overflow CSR"])

prop("C18", "The capture DMA writes only inside the buffers software armed",
     "Every word the capture DMA writes to memory lies at base+k with k < frame_size, where base and frame_size are those of a slot that was armed when the frame began, and is the k-th word "
     "of that frame. Neither frames longer than the buffer, lost or missing frame starts, memory stalls, nor software aborting, moving or re-arming slots or changing frame_size in the middle of "
     "a transfer makes it write anywhere else.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any frame lengths, stalls and software actions at any cycle, two to four slots, several bus widths; frame_size >= 1 word",
     RX_WHY, ["litevideo/input/dma.py"], [("address generator and word limit", "litevideo/input/dma.py: DMA"), ("slot selection", "litevideo/input/dma.py: _SlotArray")],
     "log monitor over self-identifying stream words: every memory write is attributed to a frame and a slot", "Sampled histories of hostile software and sources.", ["dram_port", "frame", "slot CSRs"])

prop("C19", "Capture slots complete exactly once, with one whole frame inside",
     "A slot becomes complete only after frame_size words of one frame, from its first word on, in order, have been written to the slot's buffer; its address register then reads the end address, "
     "the interrupt line is the OR of complete and enabled slots, and no other slot changes. A frame is skipped only when no slot is armed at its start (the stream is never held back then), and an armed slot completes once a "
     "long enough frame has arrived.",
     ["inputs", "schedules", "histories", "interleavings"], "any frame lengths and gaps, memory stalls, instants of software accesses, two to four slots; software does not touch an armed slot",
     RX_WHY, ["litevideo/input/dma.py"], [("slot state and event sources", "litevideo/input/dma.py: _Slot"), ("slot selection", "litevideo/input/dma.py: _SlotArray"), ("transfer state machine", "litevideo/input/dma.py: DMA")],
     "log monitor over self-identifying stream words and the slot registers; interrupt line against the registers", "Sampled histories; skipping is not judged when a slot is armed in the few cycles before the frame starts.",
     ["slot CSRs", "irq", "dram_port"])

prop("C25", "A frame buffer appears on the wire pixel for pixel, in every mode",
     "Once memory delivers in time, the symbols that VideoOut feeds to its serializers (or VGA pins) decode to exactly the raster of the programmed parameters: data enable over "
     "the active pixels only, each showing its memory word in the right colour channel (4:2:2 words converted with the chroma of their pair; raw words unchanged), "
     "identical on all channels, frame after frame, and again after memory starvation, disabling or new parameters.",
     ["inputs", "configurations", "schedules", "histories"], "any legal frame geometry and contents, rgb, ycbcr422 and raw, Series 7, Spartan-6 and VGA, any clock ratio; starvation at any time",
     OUT_WHY, ["litevideo/output/__init__.py", "litevideo/output/core.py", "litevideo/output/driver.py"],
     [("alignment of data and timing", "litevideo/output/__init__.py: VideoOut"), ("continuous fetching", "litevideo/output/core.py: DMAReader"), ("drivers", "litevideo/output/driver.py")],
     "decode the observed symbols and compare with the reference raster over a memory model", "Sampled geometries and contents; 4:2:2 needs even width and 4 pixels of blanking.", ["OSERDES inputs", "VGA pins"])

prop("C26", "Output drivers send each channel's symbols in order on the right lane",
     "For any sequence of samples, lane 0 transmits the DVI symbols of blue with the sync bits as control, lane 1 green, lane 2 red (in raw mode the given 10-bit words), first bit first "
     "through the serializer in use, with the same latency on all lanes, inverted exactly where the pad is marked inverted, beside a clock lane with one period per pixel; VGA "
     "pins carry the top bits of each colour and inverted syncs. The driver never stalls.",
     ["inputs", "configurations"], "any sample sequence; both families, all modes, pad polarities, VGA widths, internal or external clocking",
     OUT_WHY, ["litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/output/driver.py"],
     [("serialization and polarity", "litevideo/output/hdmi/s7.py: S7HDMIOutEncoderSerializer, litevideo/output/hdmi/s6.py: _S6HDMIOutEncoderSerializer"), ("channel mapping", "S6HDMIOutPHY, S7HDMIOutPHY, VGAPHY")],
     "serializer inputs observed through data-sheet models of the vendor primitives, against a DVI encoder", "Sampled samples and configurations.", ["OSERDES inputs", "pads"])

prop("C20", "The sink's EDID is readable over DDC in any order, and never jams the bus",
     "An I2C master that addresses device 0x50 can set an offset and read any number of bytes from it (wrapping around, continuing with the next byte in later reads) and gets exactly the EDID "
     "contents, including software changes, at any bus speed, with repeated starts and aborted transfers in between. The slave acknowledges nothing but its address and offset bytes (data bytes written behind the offset are refused whatever their value), pulls SDA "
     "low only, changes it only while SCL is low, and with hot plug disabled lets go of the bus at once and stays silent. Hot plug pins follow the registers, inverted where marked.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any sequence of I2C transfers and aborts at any speed slower than four sampling periods per bit, any instant of disabling, both bus wirings",
     RX_WHY, ["litevideo/input/edid.py"], [("bit sampling and start detection", "litevideo/input/edid.py: EDID"), ("state machine", "litevideo/input/edid.py: fsm")],
     "I2C master with a memory model and a bus rule monitor", "Sampled transfer sequences.", ["pads", "hpd CSRs"])

prop("C27", "HDMI mode finds the pixels between guard bands and data islands",
     "In any well-formed HDMI character stream the receiver's data enable is active exactly for the characters of the video periods, in step with the data and the same as in DVI mode: not in "
     "control periods, preambles, guard bands or data islands, and also for pixels that are encoded like guard bands. Data islands, and in them the characters between the guard bands, are indicated exactly, TERC4 characters decode to "
     "their values, and after noise or loss of synchronisation everything is right again from the next control period on.",
     ["inputs", "histories", "fault_sequences"], "any sequence of control periods, islands of 1 to 18 packets and video periods of any length and contents; noise and sync loss anywhere",
     RX_WHY, ["litevideo/input/decoding.py", "litevideo/input/__init__.py"],
     [("period state machine", "litevideo/input/decoding.py: DecodeTERC4"), ("token recognition", "litevideo/input/decoding.py: DecodeTERC4Channel")],
     "online reference of the period grammar against data enable and island indication", "Sampled streams; sync changes carried inside islands are not claimed.", ["de_o", "encoding_terc4", "decval.d"])

prop("C28", "The word error counter counts illegal words, and only those",
     "The value software reads after an update is the number of words of the last complete measurement period (2^24 words by default) that no TMDS encoder produces - neither "
     "control characters nor words with at most four transitions - give or take one; a clean link reads zero whatever data, control and polarity it carries. The value only changes with an update.",
     ["inputs", "schedules"], "any word sequence, any period length above the crossing time, any clock ratio and update instant",
     RX_WHY, ["litevideo/input/wer.py"], [("pipeline and period counter", "litevideo/input/wer.py: WER")],
     "sliding-window reference count against every value read", "Sampled word streams; full default period included.", ["_value", "_update"])

prop("C29", "The terminal displays its text memory pixel for pixel with VGA timing",
     "Every frame of the terminal has 521 lines of 800 clocks with the documented sync pulses and porches, and each of its 640x480 pixels shows the foreground or background colour (VGA "
     "palette) that the character's attribute and its font line select, black outside of the picture; changes by software appear from the next time a cell is drawn, without disturbing other cells.",
     ["inputs", "histories", "interleavings"], "any text, attribute and font contents, rewritten at any time",
     "The repository has no test of the terminal; contents and instants of writes are unbounded.", ["litevideo/terminal/core.py"],
     [("timing counters, character fetch pipeline", "litevideo/terminal/core.py: Terminal")],
     "frame grabber monitor with a reference renderer over a log of memory writes", "Sampled contents, every pixel of the frames shown; cells rewritten while they are drawn are not judged.", ["red", "green", "blue", "hsync", "vsync"])

prop("C30", "The terminal memory is a plain memory to software, initialised from files",
     "Every access on the terminal's bus is acknowledged exactly once; a read returns the last value written to that address, or else the byte of the text or font file given at construction "
     "(zero without a file), whatever the timing of accesses and the display clock; a file of the wrong size is refused.",
     ["inputs", "schedules", "histories"], "any sequence of accesses below the end of memory by a master that waits for acknowledge, any gaps, any clock ratio",
     "The repository has no test of the terminal.", ["litevideo/terminal/core.py"], [("bus to memory port", "litevideo/terminal/core.py: Terminal"), ("init files", "litevideo/terminal/core.py: read_ram_init_file")],
     "memory model against a hostile bus master", "Sampled access histories, complete read-back.", ["bus"])

prop("C31", "Test pattern generators deliver exact patterns under any back-pressure",
     "Whatever the back-pressure, the pixels that a pattern generator hands over are exactly the lines of its pattern: eight equal colour bars in the standard order, alternating white and "
     "black columns, or a checkerboard that shifts every line; a pending pixel never changes and the generator never runs dry.",
     ["inputs", "schedules"], "any ready schedule and start instant; widths up to 4088, multiples of 8 for bars, even for dots",
     OUT_WHY, ["litevideo/output/pattern.py"], [("pattern counters", "litevideo/output/pattern.py")],
     "stream monitor against the pattern definition", "Sampled schedules and widths; parameters constant.", ["source"])

prop("C32", "Data capture delivers the bit stream intact and obeys delay commands once",
     "The ten-bit words of the data capture are the received bits in order, first bit lowest, none lost or repeated, whatever the pad polarity, the alignment of the resets of its domains and "
     "the content; every delay command of software reaches the master and slave delay lines exactly once, in the right direction, busy reads 1 until the delay line is done and the tap "
     "registers follow; the phase register says late or early exactly when late (early) sampling errors outweigh the other kind by 127 (128) since the last reset, and keeps it.",
     ["inputs", "schedules", "histories"], "any bit stream, reset skew, pad polarity, command history (one at a time), clock ratio and sequence of phase errors",
     RX_WHY, ["litevideo/input/datacapture.py"], [("gearbox, delay control, phase detector", "litevideo/input/datacapture.py: S6DataCapture, S7DataCapture")],
     "data-sheet models of the input primitives with command and bit stream monitors", "Sampled streams and command histories; analogue behaviour is not modelled.", ["d", "_dly_ctl", "_dly_busy", "_phase"])

prop("C33", "The receiver stores every received frame, bit for bit and in order",
     "With a valid DVI or HDMI signal on its pads and slots armed in time, every frame after lock-in is stored in memory exactly as transmitted, frames in order, on both families and in both pixel "
     "formats, whatever the sync polarities, lane skew, pad polarities and data islands; the lock, resolution and error count registers tell the truth (a count only for the lane with the errors), and after a burst of errors the receiver recovers within "
     "a few frames without software.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "any video with blanking of at least 30 clocks and lines of at least 12 pixels, skew below 5 characters, any clock ratio, error bursts of any length",
     RX_WHY, ["litevideo/input/__init__.py"], [("receiver wiring", "litevideo/input/__init__.py: HDMIIn")],
     "end-to-end scoreboard from TMDS bits on the pads to words in memory, with noise injection", "Sampled videos and geometries of up to 60x12; frames during lock-in and around noise are not judged.",
     ["pads", "dram_port", "_hres", "_vres", "_channels_synced"])

prop("C34", "Every clock reconfiguration access reaches the PLL or DCM exactly once",
     "Each read or write that software starts on a clock reconfiguration port is one access of the PLL with the programmed address and data, on that PLL only; drdy reads 0 until it is done and 1 "
     "from then on, and the data register then holds what was read. Each command to the Spartan-6 pixel clock DCM is sent once, ten bits in order (one for GO), with busy set until the next one may follow.",
     ["inputs", "schedules", "histories"], "any sequence of accesses by software that waits for drdy or busy, any response time of the primitives",
     "The repository has no test of its clocking modules.", ["litevideo/input/clocking.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"],
     [("DRP registers", "litevideo/input/clocking.py"), ("DCM serial programming", "litevideo/output/hdmi/s6.py: S6HDMIOutClocking")],
     "reactive models of the configuration ports with exactly-once logs", "Sampled access histories.", ["_pll_drdy", "_mmcm_drdy", "DEN", "PROGEN"])

prop("C35", "Clocks have exact ratios; unlocked domains are in reset",
     "All pixel and serial clocks come from the link clock (or the board clock, for outputs) with exactly the ratios the serializers need, in phase and with the polarity of the pads; serial primitives run "
     "on the matching pair. Whatever the history of lock, the pixel domains that have a reset are held in it while their clock generator is unlocked, leave it within a few clocks of lock and never "
     "re-enter it while locked; the lock and status registers follow, and the reset register resets the generator.",
     ["schedules", "configurations", "histories"], "both families, split clocking, external clocking, inverted clock pad; any history of lock and reset",
     "The repository has no test of its clocking modules.", ["litevideo/input/clocking.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/output/driver.py"],
     [("clock trees", "litevideo/input/clocking.py"), ("output clock trees", "litevideo/output/hdmi")],
     "clock tree tracing on the elaborated design and reset/lock monitors under random lock histories", "PLLs in their initial configuration; analogue limits are not judged.", ["locked", "cd_pix", "LOCKED", "RST"])

prop("C36", "No register races with a signal of an unrelated clock",
     "A register that reads a signal of an unrelated clock domain, a primitive or an asynchronous pad directly never does so at a moment when that signal may be changing: everything that can change at a bad moment "
     "goes through a synchroniser (of at least two stages) of the domain that uses it, and no clock domain leaves its reset at such a moment; so what the design does never depends on which of two unrelated clock edges comes first by a hair.",
     ["inputs", "schedules", "histories", "configurations"], "any phase and ratio of unrelated clocks; any instant of register writes, lane errors, bus edges, status changes",
     RX_WHY, ["litevideo/input", "litevideo/output"], [("clock domain crossings", "litevideo/input/*.py, litevideo/output/core.py")],
     "race monitor: edges executed a second time with changing foreign bits mixed, under the workloads of all multi-clock properties and software polling every register", "Sampled workloads; clocks derived from one source are related and not judged; a crossing is racy "
     "only if it was seen to change the next state; counter registers are read some time after their update.", ["underflow_enable", "_overflow", "_hres", "_channels_synced", "_phase", "locked"])

prop("C37", "Genlock lays the memory's picture over a live timing, aligned",
     "With a genlock stream, the core's output timing is the live stream's, cycle by cycle; from the second frame start after enabling on, the k-th active sample of every frame shows the memory word base + delay_base + k, nothing outside "
     "is read, and a partial or shifted picture is never shown, whatever the instant of enabling and however the live geometry changes while its number of active pixels stays.",
     ["inputs", "schedules", "configurations"], "any live timing with enough vertical blanking to fill the FIFO, any instant of enabling, base, delay_base, clock ratio, memory latency and stalls the FIFO covers",
     OUT_WHY, ["litevideo/output/core.py"], [("genlock fetch and timing", "litevideo/output/core.py: DMAReader, TimingGenerator")],
     "trace monitor with self-identifying memory words under random live timings", "Parameters are programmed once, before enabling; the live stream is never held.", ["genlock_stream", "source", "delay_base", "dram_port"])

prop("C38", "The receiver survives loss and return of the signal",
     "Whatever the instant of a loss of lock and whatever software does meanwhile, and with any other video signal (geometry, polarity, skew, DVI or HDMI) when lock returns: from a few frames after lock on every frame is stored exactly as "
     "transmitted and in order in the slots armed for it, the lock, synchronisation and resolution registers tell the truth, words lost raise the overflow flag, and a clear of it, even one issued while the pixel clock was "
     "stopped or in reset, takes effect.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any history of losses (pixel clocks stopped or running, PLL reset by software), any signal in between and afterwards, any polling, clearing and re-arming",
     RX_WHY, ["litevideo/input/__init__.py", "litevideo/input/analysis.py", "litevideo/input/clocking.py"],
     [("resets of the pixel domains", "litevideo/input/clocking.py"), ("overflow clear over resets", "litevideo/input/analysis.py: FrameExtraction")],
     "end-to-end scoreboard over lock-loss histories, flag monitor over clock domain resets", "Sampled histories; a transfer interrupted in mid-frame may be completed with words of later frames; delay lines are recalibrated by software.",
     ["pads", "dram_port", "locked", "_overflow"])

prop("C39", "The output survives reprogramming of the pixel clock",
     "Whenever software disables the output, resets the clock generator (pixel clock stopped, running or absent meanwhile), and enables it with other parameters at another pixel clock: nothing is fetched or shown while disabled, "
     "and within a few frames after lock every frame is exactly the raster and memory picture of the parameters then in effect; what was programmed before never returns, also not for one frame.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any order and timing of disable, loss of lock, reprogramming, lock and enable, also losing the clock while enabled or while a frame is being drained",
     OUT_WHY, ["litevideo/output/core.py", "litevideo/output/hdmi/s7.py", "litevideo/output/hdmi/s6.py"],
     [("parameter queue over resets", "litevideo/output/core.py: Initiator"), ("reset of the pixel domain", "litevideo/output/hdmi/s7.py: S7HDMIOutClocking")],
     "trace monitor over sessions: serializer symbols and fetched addresses against the raster of the parameters in effect", "Sampled histories; reads outstanding when the pixel domain is reset are dropped by the memory port; "
     "the pixel clock runs a while before lock; on Spartan-6 nothing is reset and the old frame is drained first.", ["initiator", "pix", "dram_port", "enable", "locked"])

prop("C40", "Every combination of options builds a complete, consistent design",
     "Any supported combination of constructor options, alone or as several cores in one design (also sharing clocks), elaborates and converts to Verilog needing only the documented outer clock domains, drives no signal twice, "
     "and gives software a register map of unique names in which every register starts at its reset value and reads back what was last written to it, whatever is written to the others.",
     ["configurations", "inputs", "schedules"], "family x mode x pads (polarity, widths, optional ones) x port widths x FIFO depths x slots x clocking (split, shared) x genlock x sample widths, one to four cores per design",
     "The benches build one or two fixed configurations of the converters and none of the complete cores.", ["litevideo/input/__init__.py", "litevideo/output/__init__.py", "litevideo/output/driver.py", "litevideo/output/core.py"],
     [("constructor options", "litevideo/input/__init__.py: HDMIIn"), ("constructor options", "litevideo/output/__init__.py: VideoOut"), ("slots", "litevideo/input/dma.py: _SlotArray")],
     "elaboration monitor over random option combinations, register scoreboard on the running designs", "Sampled combinations; vendor tools are not run on the Verilog.", ["get_csrs", "Verilog text", "CSR bus"])

prop("C41", "The live picture of a receiver is exact, clock by clock",
     "With a valid DVI or HDMI signal on its pads, from lock-in on a receiver presents the characters of the three lanes one per clock, at a constant delay, de-skewed and none lost or repeated: the raw characters (c0 to c2) exactly as sent - "
     "control characters, guard bands and data islands included - and in the same clock valid, data enable exactly for pixels, the pixel's colours, and the active-high syncs of the last control character; with or "
     "without a memory port, and again a few frames after a burst of errors.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "any video with blanking of at least 30 clocks and a front porch, skew below 5 characters, any polarity, error bursts of any length",
     RX_WHY, ["litevideo/input/__init__.py", "litevideo/input/analysis.py"],
     [("delay match in HDMI mode", "litevideo/input/__init__.py: TimingDelayChannel"), ("live outputs", "litevideo/input/analysis.py: SyncPolarity")],
     "clock by clock comparison of the live outputs with the transmitted characters, with noise injection", "Sampled videos; syncs carried inside data islands are not claimed; split clocking with ideal phase alignment.",
     ["pads", "syncpol.valid_o", "syncpol.de", "syncpol.hsync", "syncpol.vsync", "syncpol.r", "syncpol.g", "syncpol.b", "syncpol.c0", "syncpol.c1", "syncpol.c2"])
