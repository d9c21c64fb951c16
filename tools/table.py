NOTE = ("Every obligation is discharged for all inputs, all reachable states and histories of the listed "
        "configurations by z3 (cvc5 as fallback) on verification conditions regenerated from /repo on every run. "
        "Trusted: Migen's FHDL integer semantics as implemented in vd/sem.py (cross-checked against Migen's own "
        "simulator on every run), Migen/LiteX/LiteDRAM library code is inlined not assumed, vendor primitives are "
        "black boxes, no metastability.")
NOTES = ("Checks elaborate the real litevideo classes from /repo with the installed Migen/LiteX, compose them with a "
         "contract (ghost FHDL module), generate verification conditions from the elaborated AST and discharge them; "
         "failing obligations are turned into runs replayed in Migen's simulator.")

prop("C01", "RGB to YCbCr conversion is the documented fixed-point transform",
     "For every RGB pixel accepted by the RGB-to-YCbCr converter, the produced Y, Cb and Cr equal the XAPP930 equations yraw=g+floor((ca(r-g)+cb(b-g))/2^cw), Y=yraw+2^(w-4), Cb=floor(cc(b-yraw)/2^cw)+2^(w-1), Cr=floor(cd(r-yraw)/2^cw)+2^(w-1) with coefficients 0.1819, 0.0618, 0.5512, 0.6495 truncated to cw fractional bits. Each result is clamped to 0..2^w-1, never wrapped. It appears with the pixel it belongs to, 8 accepted cycles later, whatever the stalls and gaps.",
     ["inputs", "schedules", "configurations"], "all pixel values, all valid/ready schedules, data widths 6/8/10 and coefficient widths 6/8/10",
     "The test bench converts one photograph through the default widths without back-pressure and looks at the picture; it does not compare 2^24 inputs nor stalls.",
     ["csc/rgb2ycbcr.py", "csc/common.py"], [("8-stage datapath", "csc/rgb2ycbcr.py"), ("saturate", "csc/common.py")],
     ["source.y/cb/cr against sink.r/g/b of RGB2YCbCr"])

prop("C02", "YCbCr to RGB conversion is the documented fixed-point transform",
     "For every YCbCr pixel accepted by the YCbCr-to-RGB converter, R, G and B equal the XAPP931 equations y-2^(w-4)+floor(k*(c-2^(w-1))/2^f) with coefficients 1/0.6495, -0.0618/(0.5512*0.7563), -0.1819/(0.6495*0.7563), 1/0.5512 truncated toward zero to f=cw-2 fractional bits. Each result is clamped to 0..2^w-1, never wrapped. It appears with the pixel it belongs to, 4 accepted cycles later, whatever the stalls and gaps.",
     ["inputs", "schedules", "configurations"], "all pixel values including out-of-gamut ones, all valid/ready schedules, several widths",
     "The test bench converts one photograph without back-pressure; out-of-gamut values, clamping on each side and stalls are not compared.",
     ["csc/ycbcr2rgb.py", "csc/common.py"], [("4-stage datapath", "csc/ycbcr2rgb.py"), ("saturate", "csc/common.py")],
     ["source.r/g/b against sink.y/cb/cr of YCbCr2RGB"])

prop("C03", "Streamed pixels and numbers come out once, in order, with their markers",
     "Every pipelined actor (the four color converters, the 4:2:2 resampler, the half-precision adder and multiplier) delivers exactly one result per accepted item, in order, a fixed number of accepting cycles later, with the first/last markers of its own item, and refuses input exactly when a result is presented and not taken. A presented result stays valid and unchanged until it is taken. While stalled, no state of the actor changes.",
     ["inputs", "schedules", "histories"], "all histories of valid, ready, first and last, for seven actors",
     "The test benches drive actors with a ready consumer and look at values only; the space of stall and gap schedules is unbounded.",
     ["csc/rgb2ycbcr.py", "csc/ycbcr2rgb.py", "csc/ycbcr444to422.py", "csc/rgb2rgb16f.py", "csc/rgb16f2rgb.py", "float_arithmetic/floatadd.py", "float_arithmetic/floatmult.py"],
     [("pipe_ce gating of the datapath", "csc/rgb2ycbcr.py"), ("pipe_ce gating of the datapath", "float_arithmetic/floatadd.py")],
     ["sink and source valid/ready/first/last and payload"])

prop("C04", "4:4:4 to 4:2:2 resampling keeps luma and averages chroma per pair",
     "For each pair of samples accepted on consecutive enabled cycles, counted from a start-of-pair mark, the resampler outputs luma of each sample unchanged, floor((Cb0+Cb1)/2) with the first sample and floor((Cr0+Cr1)/2) with the second, three enabled cycles later. This holds for every stall. (Known finding: a gap in valid falling inside a pair, with no new mark, breaks the pairing.)",
     ["inputs", "schedules", "configurations"], "all sample values, all stalls, all placements of the pair mark, data widths 6, 8 and 10",
     "The resampling bench compares a photograph by eye; it never stalls, never restarts a pair and never has gaps.",
     ["csc/ycbcr444to422.py"], [("parity and chroma means", "csc/ycbcr444to422.py")], ["source.y and source.cb_cr of YCbCr444to422"],
     state=[("parity", "position in the pair", "csc/ycbcr444to422.py")])

prop("C05", "4:2:2 to 4:4:4 resampling gives each pair its own chroma",
     "For each pair of accepted samples, counted from power-up or reset, the upsampler outputs both luma values unchanged and in order, each with the Cb carried by the first and the Cr carried by the second sample of the same pair. This holds for every schedule of valid and ready.",
     ["inputs", "schedules", "configurations"], "all sample values, all valid/ready schedules, data widths 8 and 10",
     "The bench runs one picture without gaps or back-pressure, so neither the parity nor the pair buffering is stressed.",
     ["csc/ycbcr422to444.py"], [("parity and pair registers", "csc/ycbcr422to444.py")], ["source.y/cb/cr against sink.y/cb_cr of YCbCr422to444"])

prop("C06", "8-bit to half-float pixel conversion is exact, and back within [0,1]",
     "RGB2RGB16f turns every 8-bit component p into the half-precision float exactly equal to p/256 (zero into +0). RGB16f2RGB turns every half-precision x with 0<=x<1 into floor(256*x) and 1.0 into 255. The leading-one helper returns the position of the highest set bit.",
     ["inputs", "schedules"], "all component values and floats of the stated range, all valid/ready schedules",
     "The benches convert a photograph and write it to a file; zero, the smallest values, one and subnormals are not compared.",
     ["csc/rgb2rgb16f.py", "csc/rgb16f2rgb.py"], [("PIX2PIXF datapath", "csc/rgb2rgb16f.py"), ("PIXF2PIX datapath", "csc/rgb16f2rgb.py")],
     ["source.rf/gf/bf and source.r/g/b"])

prop("C07", "Half-precision multiply and add are exact results truncated toward zero",
     "For finite operands whose exact result is below 65536 in magnitude, FloatMult returns the exact product and FloatAdd (both operands non-negative) the exact sum, truncated toward zero to a normalized half-precision value, subnormals and zeros included, never an infinity or NaN. The product carries the sign of the operands (a zero may carry either). (Known finding: FloatAdd ignores the operand signs.)",
     ["inputs", "schedules"], "all pairs of finite half-precision operands in range, all valid/ready schedules",
     "The benches try a short list of operand pairs; alignment, carry, normalization and subnormal corner cases are a space of 2^32 pairs.",
     ["float_arithmetic/floatmult.py", "float_arithmetic/floatadd.py"], [("5-stage multiplier", "float_arithmetic/floatmult.py"), ("5-stage adder", "float_arithmetic/floatadd.py")],
     ["source.out against sink.in1 and sink.in2"])

prop("C08", "The TMDS encoder emits the standard symbols with bounded disparity",
     "Four cycles later, each pixel byte (de=1) or control pair (de=0) is encoded into the DVI 1.0 TMDS symbol: minimum-transition stage, conditional inversion chosen from the running disparity of all data since the last control symbol, or the control token. The running disparity of the transmitted bits since the last control symbol stays within -10..+10 forever.",
     ["inputs", "histories"], "all infinite sequences of data and control symbols",
     "No test exercises the encoder; disparity depends on the whole history since the last blanking.",
     ["output/hdmi/encoder.py"], [("transition minimization and DC balance", "output/hdmi/encoder.py")], ["Encoder.out against Encoder.d/c/de"],
     state=[("cnt", "running disparity", "output/hdmi/encoder.py")])

prop("C09", "TMDS decoding recovers exactly what was encoded",
     "The decoder flags each received 10-bit word as control exactly when it is one of the four tokens, decodes its control bits, and otherwise returns the byte the word encodes, with the raw word and the validity alongside, one cycle later; the control value holds between tokens. Feeding the encoder's output to the decoder returns every byte and control pair unchanged for every disparity history.",
     ["inputs", "histories"], "all 10-bit words, all infinite encoder histories",
     "No test connects an encoder to a decoder; symbols depend on the disparity history.",
     ["input/decoding.py", "output/hdmi/encoder.py"], [("Decoding", "input/decoding.py"), ("Encoder", "output/hdmi/encoder.py")], ["Decoding.output and valid_o"])

prop("C10", "Character alignment locks onto repeated control tokens at their offset",
     "The aligner locks (synced, for good) when the required number of consecutive words, each showing a control token at the bit offset of the last token seen before it, has been received, and re-locks to a new offset under the same condition. Its output is always the 10 bits at the locked offset of the last two words. The status registers report lock and offset.",
     ["inputs", "histories", "configurations"], "all infinite bit streams, required counts 4 and 8",
     "No test exercises it; lock depends on unbounded history and on tokens straddling words.",
     ["input/charsync.py"], [("token search and streak counter", "input/charsync.py")], ["CharSync.data, synced and status registers"],
     state=[("control_counter", "consecutive tokens at one offset", "input/charsync.py"), ("word_sel", "locked offset", "input/charsync.py")])

prop("C11", "Channel deskew only delays: no symbol is lost, duplicated or mixed",
     "Each output of the deskewer is its own input delayed by 1 to 8 symbols, and this delay grows by one (modulo the depth) in exactly the cycles where its channel shows a control symbol while another one shows data. The synced flag tells whether, the last time any channel showed control, all did, and clears when the input is invalid; the status register follows.",
     ["inputs", "histories", "configurations"], "all infinite symbol sequences and skews; three channels of depth 8 and two of depth 4",
     "No test exercises it; alignment depends on the history of all channels.",
     ["input/chansync.py"], [("_SyncBuffer and read pointers", "input/chansync.py")], ["ChanSync.data_out0..2, chan_synced, status"])

prop("C12", "The word error meter counts illegal TMDS words, nothing else",
     "Over consecutive periods of 2^bits words (the word at the roll-over excepted) the meter counts exactly the words with more than four transitions in their nine coded bits that are not control tokens; words of the encoder never count. A software update reads the count of the last completed period, provided results are further apart than the clock crossing takes; the register never shows a value that was no period's result, or one captured less than a system clock cycle after it was formed, and never changes without an update.",
     ["inputs", "schedules", "histories", "configurations"], "all word sequences, all interleavings of the two clocks and of updates, several period lengths",
     "No test exercises it; tearing and stale reads depend on clock interleavings.",
     ["input/wer.py", "output/hdmi/encoder.py"], [("transition count and period timer", "input/wer.py")], ["WER._value after _update"],
     note="Every obligation is discharged for all inputs and clock interleavings for period_bits 3, 5 and 8 (thorough: 2..6, 8); the default 24 is the same code at another width. Multi-bit clock crossings are modelled without skew or metastability; results are required to be four system clocks apart.")

prop("C13", "Recovered syncs are active-high whatever polarity was sent, and aligned",
     "The hsync and vsync outputs are the received control bits relative to their level in the first blanking symbol after each active line (inactive in that symbol), so they are active-high for either polarity. They, de, the pixel components and the validity are all exactly one pixel clock behind the input, on matching channels; the raw symbols are copied one output clock later.",
     ["inputs", "histories", "configurations"], "all symbol sequences, in DVI and HDMI modes",
     "No test exercises it.",
     ["input/analysis.py"], [("SyncPolarity", "input/analysis.py")], ["SyncPolarity outputs"])

prop("C14", "Reported resolution equals the measured active line and frame",
     "The horizontal register reports the number of valid active pixels of the last completed line (since validity was last lost) and the vertical register the number of lines completed between the last two vertical sync leading edges, both modulo 2^nbits and two system clocks later. Both read zero while the input is invalid.",
     ["inputs", "schedules", "histories"], "all de, vsync and valid sequences, all interleavings of the two clocks",
     "No test exercises it.",
     ["input/analysis.py"], [("ResolutionDetection", "input/analysis.py")], ["ResolutionDetection._hres and _vres"])

prop("C15", "Captured frames are packed losslessly in order, or overflow is reported",
     "Every valid active pixel (RGB888 in 32 bits, or YCbCr 4:2:2 in 16 bits with chroma pairs counted from the start of the line) is packed in order, first pixel in the most significant bits, into words that come out once, in order and unmodified on the system side; each frame starts with a new word, which alone carries the start-of-frame mark; the pixels of an incomplete word at the end of a frame are dropped. A word is lost only when the buffer is full, and then the overflow register reads 1 until cleared; it never reads 1 before a loss. (Line blanking and vertical front porch of 12 pixels or more.)",
     ["inputs", "schedules", "histories", "configurations"], "all pixel and timing sequences, all interleavings of the two clocks, all reader schedules, two word widths per mode, buffer depth 4 (thorough: also 8)",
     "No test exercises it; loss, tearing and marker errors depend on clock interleavings, stalls and frame history.",
     ["input/analysis.py", "csc/rgb2ycbcr.py", "csc/ycbcr444to422.py"], [("FrameExtraction packing, FIFO, overflow", "input/analysis.py")], ["FrameExtraction.frame and _overflow"],
     note="Every obligation is discharged for all inputs, histories and clock interleavings of the listed configurations (buffer depths 4 and 8; the asynchronous FIFO of Migen/LiteX is inlined and proved through, not assumed). Clock crossings are modelled without metastability; gray pointers without bit skew.")

prop("C18", "The timing generator scans exactly the programmed raster",
     "For every legal parameter set held at its input, the timing generator emits one blank start item and then exactly (hscan+1)*(vscan+1) items per frame in raster order, where data enable is set exactly in columns 0..hres-1 of lines 0..vres-1, hsync exactly in columns hsync_start..hsync_end-1 and vsync exactly in lines vsync_start..vsync_end-1. The set is taken with the last item of the frame and the next frame starts on the next item without a gap, whatever the pauses of the consumer. With a genlock source it passes the source's timing through unchanged.",
     ["inputs", "schedules", "histories", "configurations"], "all parameter values with 0 < active <= sync start < sync end <= scan in both directions, all back-pressure schedules, all sequences of parameter sets",
     "There is no test of the output path; the raster counters range over 2^24 positions and eight 12-bit parameters.",
     ["output/core.py", "output/common.py"], [("TimingGenerator counters", "output/core.py")], ["TimingGenerator.source and sink.ready"],
     state=[("hcounter, vcounter", "next raster position", "output/core.py")])

prop("C19", "The frame reader fetches each frame word once, in order, without overflow",
     "For each parameter set the DMA reader issues reads of word addresses base/w, base/w+1, ... base/w+length/w-1 (w bytes per memory word), each once and in order, takes the set with the last one and starts over with the next set, asking for a flush exactly while it has none (with genlock: only after a new vertical sync of the reference, and from the programmed start offset). It never issues more reads than the buffer has room for and keeps issuing them while there is room; memory answers are never refused. Words come out once, in order and unmodified, at most two cycles after they are the oldest.",
     ["inputs", "schedules", "histories", "configurations"], "all bases and non-zero lengths, all schedules of memory commands, memory answers and consumer, several word widths and buffer depths, with and without genlock",
     "There is no test of the DMA; loss or duplication needs particular interleavings of command acceptance, memory latency and back-pressure.",
     ["output/core.py"], [("DMAReader FSM", "output/core.py")], ["dram_port.cmd/rdata, DMAReader.source and sink.ready"],
     state=[("offset", "words requested in this frame", "output/core.py")])

prop("C20", "Active pixels are consecutive frame-buffer words; underflow is counted",
     "While a legal frame is programmed, the video out core emits the raster of its parameters; every active item carries the next word read from the frame buffer (rgb: 24 bits of a 32-bit word, 4:2:2: 16 bits, raw: words also in blanking), blanking items are emitted whether or not data is there, an active item waits for its word. Disabled, the output ends after the queued frames; enabled again once idle, it starts cleanly with the new buffer. With a genlock source, the timing is the source's and reading restarts with its vertical sync. The underflow counter counts exactly the output-clock cycles without an item while enabled, restarts when disabled and is read as latched at the last update. (Known finding: words prefetched before the base address changed are shown in the next frame.)",
     ["inputs", "schedules", "histories", "configurations"], "all geometries, bases and lengths, all memory and consumer schedules, all interleavings of the system and pixel clocks, three modes",
     "There is no test of the output path; shifted pixels or lost words depend on memory latency, stalls and frame history across two clocks.",
     ["output/core.py", "output/common.py"], [("combination of timing and DMA, parameter FIFO, underflow counter", "output/core.py")], ["VideoOutCore.source, dram_port.cmd/rdata, underflow_counter"],
     note="Every obligation is discharged for all inputs, histories and clock interleavings of the three modes with buffer depth 4. Preconditions: buffer address and length constant while frames are queued (the violation of the first is the known finding); enabled again only when the reader asks for a flush and no word is under way; with genlock, constant parameters. Clock crossings are modelled without metastability.")

prop("C21", "Pixel components, data enable and syncs reach the driver together",
     "VideoOut hands the driver, for every item of the core, its own data enable, hsync and vsync together with its own pixel: in rgb mode r, g, b are bits 7..0, 15..8, 23..16 of the word; in raw mode symbols c0, c1, c2 are bits 9..0, 19..10, 29..20; in 4:2:2 mode the pixel is the conversion of its own luma (bits 7..0) and of the chroma of its pair (bits 15..8 of the first and second pixel), pairs being counted from the start of each line. In 4:2:2 mode all of them come out the same fixed number of cycles later.",
     ["inputs", "schedules", "histories", "configurations"], "all item sequences (4:2:2: without underflow, lines of even length, at least three blank items between lines), three modes",
     "There is no test of the output path; a delay that differs by one between data and data enable only shows as a shifted picture border.",
     ["output/__init__.py", "csc/ycbcr422to444.py"], [("TimingDelay and data path", "output/__init__.py")], ["VideoOut.core.source against VideoOut.driver.sink"],
     note="The core is represented by its contract (an arbitrary item stream, C20); everything else of VideoOut is the real code. In 4:2:2 mode the expected pixel is converted by a second instance of the real converter, whose function is C02.")

prop("C16", "The input DMA writes whole frames only inside slots loaded by software",
     "A frame is captured exactly when a start-of-frame word arrives while a slot is loaded: the words from that one on are written to consecutive memory words starting at the slot's address, each word once, in order and unmodified, exactly frame-size of them, never outside the slot; words outside a capture are dropped and the next frame's start is kept until then. After the last word has been handed to memory that slot alone becomes pending with its end address, and the interrupt is raised exactly when a pending slot is enabled.",
     ["inputs", "schedules", "histories", "configurations"], "all frame word streams, all schedules of memory commands and data, all register write sequences that leave loaded slots alone and use a non-null frame size, several word widths and slot counts",
     "No test exercises the DMA; a write past a slot or a wrong done event needs a particular interleaving of stalls, slot loading and short or long frames.",
     ["input/dma.py"], [("DMA FSM, slot selection, word counter", "input/dma.py")], ["dram_port.cmd/wdata, slot status and address registers, ev.irq"],
     state=[("mwords_remaining, current_address", "words left and next address of the frame", "input/dma.py")])

prop("C17", "The EDID slave answers I2C reads with the stored EDID, else frees the bus",
     "Sampling the bus every 64 cycles, the EDID slave acknowledges exactly address bytes equal to 0x50 after a start and the offset byte of a write, returns the bytes of the EDID from the written offset on (each acknowledged byte moves to the next), stops after a byte that is not acknowledged, and pulls SDA at no other time. SDA changes only while SCL is low, or when hot plug is disabled, which releases it within a few cycles. Hot-plug detection is reported to software with the pad's polarity. The default EDID has valid header, extension blocks and checksums.",
     ["inputs", "schedules", "histories", "configurations"], "all bus waveforms (starts, stops and aborts at any point, any SCL timing), all address, offset and data bits, hot plug disabled at any time, pads with pull-down driver, tristate pads, inverted pads",
     "The only EDID test plays one scripted read; a start in the middle of a byte, an abort while the slave drives or disabling during a read need specific histories.",
     ["input/edid.py"], [("sampling, bit counter, FSM and data driver", "input/edid.py")], ["pads.sda_pd or the tristate enable against scl and sda, _hpd_notif, mem"],
     state=[("offset_counter", "next EDID byte", "input/edid.py")])

prop("C24", "HDMI periods are decoded so that data enable covers exactly the video pixels",
     "For legal HDMI symbol streams (HDMI 1.3a, 5.2: control periods with preambles of at least 8 symbols, guard bands, video data periods, data islands), entered through at least 8 control symbols after a loss of sync, the decoder raises data enable exactly on video pixels, two cycles after their symbol, and never on guard bands or islands; reports the island (TERC4) period, the encrypted-video and encrypted-data flags and control codes of their symbols, and decodes every TERC4 symbol to its nibble. Each channel flags its control, guard-band and other (data) symbols. In DVI mode data enable is that of channel 0, equally delayed.",
     ["inputs", "schedules", "histories"], "all legal HDMI streams: all lengths and orders of control, video and island periods, all symbols, sync loss at any time",
     "The existing decoder tests use single symbols; period tracking depends on the history of preambles and guard bands on three channels.",
     ["input/decoding.py"], [("DecodeTERC4 FSM, preamble counters, TERC4 lookup", "input/decoding.py")], ["DecodeTERC4 outputs against data_in0..2, c0..2, de0"])

prop("C22", "Output pads carry each channel's own symbol, bit 0 first, with its clock",
     "For every pixel given to the output driver, HDMI channel 0 carries the TMDS encoding of blue with hsync and vsync as control bits, channel 1 of green and channel 2 of red with null control bits (raw mode: the given 10-bit symbols), all ten bits serialized least significant first, complemented exactly on pads marked inverted; the clock channel is high during the first half of each symbol; bit clocks are the exact multiples of the pixel clock, the serializers are enabled. VGA pads carry active-low syncs, the top bits of each component in active pixels and black during blanking. Both FPGA families accept both kinds of pads.",
     ["inputs", "schedules", "configurations"], "all pixel sequences, both device families, rgb/4:2:2/raw modes, any inverted pads, differential or single-ended clock, VGA pads of any width, external clocking",
     "No test elaborates the output PHY; exchanged channels or bits are legal gateware and only show on a screen.",
     ["output/driver.py", "output/hdmi/s6.py", "output/hdmi/s7.py"], [("channel mapping, serializers, clock pad", "output/hdmi/s7.py"), ("2x soft serialization", "output/hdmi/s6.py"), ("VGAPHY", "output/driver.py")],
     ["inputs of the serializer primitives that drive the pads, VGA pads"],
     note="Vendor primitives (OSERDES, PLL, BUFG...) are not modelled: the obligations say what their inputs and parameters are. The encoder is used as its own contract (C08). The pixel clock seen as data by the Spartan 6 serializer is an arbitrary level; that it is high in the first half of the pixel is assumed.")

prop("C23", "Clock generators obey their registers and report lock truthfully",
     "In input and output clocking of both families, each read or write strobe of the clock generator's reconfiguration port makes exactly one access with the programmed address and data, and the ready flag reads 1 from the answer to the latest access until the next one; the reset register resets the generator (inputs start in reset), which runs from the connector's clock through a closed feedback loop; lock status is that of the primitive two cycles ago and holds the pixel domains in reset while unlocked; the bit clocks are the stated exact multiples of the pixel clock. The Spartan 6 pixel clock programming shifts each 10-bit command out once, least significant bit first, and is busy exactly while doing so.",
     ["inputs", "schedules", "histories", "configurations"], "all register access sequences (no command while busy), all answers and lock histories of the primitives, input and output clocking of both device families, split clocking, inverted clock pads",
     "No test elaborates the clocking modules.",
     ["input/clocking.py", "output/hdmi/s6.py", "output/hdmi/s7.py"], [("S6Clocking, S7Clocking", "input/clocking.py"), ("S6HDMIOutClocking", "output/hdmi/s6.py"), ("S7HDMIOutClocking", "output/hdmi/s7.py")],
     ["inputs and parameters of PLL/MMCM/DCM primitives, CSR status registers"],
     note="Vendor primitives (PLL_ADV, MMCME2_ADV, PLLE2_ADV, DCM_CLKGEN, BUFPLL) are not modelled: the obligations say what their inputs and parameters are, for any behaviour of their outputs.")

prop("C30", "HDMIIn's parts are connected so each pixel keeps its own enable and syncs",
     "In the HDMI input, channel i is captured from pads i, aligned, decoded and synchronized as channel i, its errors counted on its own counter; the frame extraction and the resolution detection get, for each pixel, blue, green and red of channels 0, 1, 2 together with the data enable of that very pixel (DVI: of channel 0; HDMI: of the period decoder, which answers two cycles later) and the hsync and vsync of channel 0 in normalized polarity; pixels are valid while the channels are synchronized; frames go to the DMA unmodified in the selected mode.",
     ["inputs", "histories", "configurations"], "all symbol and synchronization histories, DVI and HDMI, both device families, rgb and 4:2:2 modes, split clocking",
     "No test elaborates HDMIIn; a delay wrong by one or exchanged channels are legal gateware and only show on a screen.",
     ["input/__init__.py", "input/analysis.py"], [("HDMIIn", "input/__init__.py"), ("SyncPolarity", "input/analysis.py")], ["inputs of FrameExtraction, ResolutionDetection, DMA and WER inside HDMIIn"],
     note="The parts with properties of their own (capture C28, character sync C10, channel sync C11, decoding C09, period decoder C24, extraction C15, DMA C16) are represented by contracts that only fix their latencies; SyncPolarity, the delays, clocking and EDID are the real code.")

prop("C26", "The terminal follows the documented VGA timing, black outside the picture",
     "From reset on and for ever, the terminal repeats frames of 521 lines of 800 pixel clocks; hsync is low exactly during the first 96 clocks of each line and vsync low exactly during the first 2 lines of each frame; the color outputs are 0 outside clocks 144..783 of lines 31..510, whatever the memory holds and whatever happens on the bus.",
     ["inputs", "histories", "configurations"], "all memory contents and bus activity, all interleavings of the two clocks, unbounded time; with and without pads and initial contents",
     "No test covers the terminal; one clock too many per line needs a frame-long measurement to be seen.",
     ["terminal/core.py"], [("Terminal timing counters", "terminal/core.py")], ["Terminal.hsync, vsync, red, green, blue"],
     state=[("pixel_counter, line_counter", "position on the screen", "terminal/core.py")])

prop("C27", "The terminal shows each character with its own glyph line and colors",
     "Pixel p of line l of character cell (row, column), that is clock 144+8*column+p of line 31+16*row+l, has the foreground color when bit 7-p of the font byte 4800+16*code+l is set and the background color otherwise, in the VGA palette, where code and colors are the bytes 160*row+2*column and the next one, provided these bytes have been left alone for 17 pixel clocks. Each bus request is acknowledged once, in the next cycle; reads return the last acknowledged write to their address or else the initial contents, which are those of the given files.",
     ["inputs", "histories"], "all cells, lines, memory contents and bus request sequences, all interleavings of the two clocks",
     "No test covers the terminal; 307200 pixels of a frame times 8896 memory bytes cannot be enumerated.",
     ["terminal/core.py"], [("Terminal fetch pipeline", "terminal/core.py"), ("Wishbone access", "terminal/core.py"), ("read_ram_init_file", "terminal/core.py")], ["Terminal.red, green, blue against the memory contents; Terminal.bus"],
     note="The memory is represented by the words at arbitrary constant addresses the obligations speak of, with arbitrary initial values; reads elsewhere return arbitrary data (sound over-approximation). Bus addresses below 8896; the master keeps a request until acknowledged. Concurrent read and write of one word returns the old or the new byte, as Migen's memory model says.")

prop("C28", "Data capture keeps bit order and executes each delay command exactly once",
     "Spartan 6: each captured symbol is the last two 5-bit groups of the deserializers, oldest bit first, complemented exactly on inverted pads; 7 series: the deserializer's 8 bits go to the 8:10 gearbox oldest first with the pad's polarity; deserializers and delays are enabled and configured for this. Each delay command written by software reaches the delay elements exactly once, as one pulse within three serial clock edges, increments and decrements with their direction; the Spartan 6 busy flags read 1 from a command until the delay has been idle after it and fall within three edges of that. The phase status reports a saturating error counter that counts each valid phase error, late up and early down, from the middle after a reset.",
     ["inputs", "schedules", "histories", "configurations"], "all symbol streams, command sequences (the next one not before the previous one arrived, no delay command while busy) and primitive answers, all interleavings of system, serial and pixel clocks, both device families, inverted pads, several counter widths",
     "No test elaborates the data capture.",
     ["input/datacapture.py"], [("S6DataCapture", "input/datacapture.py"), ("S7DataCapture", "input/datacapture.py"), ("S7PhaseDetector", "input/datacapture.py")], ["inputs of IODELAY2/IDELAYE2, d, _dly_busy, _phase"],
     note="Vendor primitives are not modelled (their outputs are arbitrary); which of their outputs is the oldest bit is taken from the vendor's documents. Migen's Gearbox and BusSynchronizer are used as contracts, discharged on the installed Migen by the `library` obligations; its PulseSynchronizer and MultiReg are inlined and proved through (no metastability).")

prop("C29", "Test patterns are exact and hold each pixel until it is accepted",
     "While parameters are offered, the color bars produce eight vertical bars of hres/8 pixels (white, yellow, cyan, green, magenta, red, blue, black), the vertical lines alternate black and white, the dots form a checkerboard, one pixel in every cycle the consumer accepts, whatever its pauses: every pixel is held until accepted and none is skipped or repeated; no pixel is produced without parameters.",
     ["inputs", "schedules", "histories"], "all resolutions (multiples of 8 for the bars, even for the others), all back-pressure schedules, unbounded time",
     "No test covers the patterns; lost or changed pixels need a consumer that pauses.",
     ["output/pattern.py"], [("ColorBarsPattern", "output/pattern.py"), ("VerticalLinesPattern", "output/pattern.py"), ("DotsPattern", "output/pattern.py")], ["source of each pattern"])
