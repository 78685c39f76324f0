CPPNOTE = "Executions of the real C++ sources under sanitizers on generated workloads, judged online by an independent reference; explores inputs, histories and schedules, not all of them."

prop("C01", "On-device prefix tree returns exactly the longest cached prefix",
     "After any history of inserts, searches and evictions on the on-device (C++) prefix tree, a search returns exactly the longest cached prefix of the queried tokens within its namespace, and for every token of it the KV addresses stored for that token. "
     "Eviction removes only unlocked, least recently used leaves and reports their addresses once; no freed node is touched.",
     ["histories", "inputs"], "every history of operations, token sequence, extra key and capacity",
     "Correctness depends on node splits, reference counts and eviction orders built up over a history; tests insert a few fixed sequences.",
     ["mllm/engine/prefix_cache/"],
     [("RadixTree insert/search/_match/_evictLeaf", "mllm/engine/prefix_cache/RadixTree.cpp"), ("Cache promote/find", "mllm/engine/prefix_cache/Cache.cpp")],
     "runtime monitoring: model-based monitor over random histories, ASan/UBSan", CPPNOTE, ["search results", "evicted addresses"])

prop("C02", "Paged KV storage gives each live token its own bytes and keeps them",
     "In the on-device paged KV storage every live token address owns its bytes exclusively: what was written is read back until the address is freed, across purges, prefetches, reuse of lanes and growth of the blob pool. "
     "A store that was recorded and recovered from disk is the store that was saved, and an exhausted store refuses.",
     ["histories", "configurations", "crash_points"], "every history of allocate, write, purge, prefetch, free, finalize and recover for every lane count, blob size and layout",
     "Lane and bitmap faults show only once a page is crossed, a lane reused or a store recovered.",
     ["mllm/engine/prefix_cache/"],
     [("ZenFileSystem alloc/free/purge/prefetch/recover/finalize", "mllm/engine/prefix_cache/ZenFS.cpp"), ("TLB/Cache::alloc/free/purge", "mllm/engine/prefix_cache/Cache.cpp")],
     "runtime monitoring: shadow copy and ownership ledger over random histories with recovery, ASan/UBSan", CPPNOTE, ["bytes behind each address", "recovered index"])

prop("C03", "Tensor memory: live storages never overlap, and freed memory is reused",
     "Live tensor storages never share bytes, are aligned as required, lie in memory obtained from the device allocator and keep their contents until freed, for every size and from every thread. "
     "Freed blocks merge back: memory is requested from the device only when no free block can hold the request, and an oversized request never corrupts other storages.",
     ["histories", "schedules", "configurations"], "every sequence of allocations and frees, storage size, segment size and thread interleaving",
     "Block splitting, merging and races need long concurrent histories; tests allocate a few tensors.",
     ["mllm/engine/BuddyMemPool.cpp", "mllm/engine/MemoryManager.cpp", "mllm/core/TensorStorage.cpp"],
     [("BuddyMemPool alloc/free/_allocBlock/_mergeBlock", "mllm/engine/BuddyMemPool.cpp"), ("MemoryManager alloc/free", "mllm/engine/MemoryManager.cpp")],
     "runtime monitoring: interval ledger and pattern shadow over random histories; TSan for concurrent use, ASan for the rest", CPPNOTE, ["addresses given to storages", "segments requested from the allocator", "bytes of storages"])

prop("C04", "A parallel loop runs each index once and returns when all are done",
     "Every parallel loop runs its body exactly once for every index of its range, and returns only after all of them have finished and their writes are visible to the caller. "
     "This holds for any range, step and thread count, for loops begun inside loops, from several threads at once, and while the pool goes idle or wakes.",
     ["inputs", "schedules", "configurations"], "every range, step, thread count, nesting, concurrency and idle/wakeup history",
     "Lost wakeups, shared slots and remainder iterations depend on interleavings and odd ranges.",
     ["mllm/core/Parallel.hpp", "mllm/engine/HpcThreadPool.cpp"],
     [("HpcThreadPool push/acquireTaskSlot/idle/wakeup", "mllm/engine/HpcThreadPool.cpp"), ("MLLM_AUTO_PARALLEL_FOR", "mllm/core/Parallel.hpp")],
     "runtime monitoring: per-index execution counters, deadline watchdog, TSan and ASan with injected delays", CPPNOTE, ["body invocations per index", "values read after return"])

prop("C05", "Each on-device request gets its responses once, in order, with an end",
     "For every request the on-device service accepts, its responses reach whoever asks for that id, each exactly once, in the order the session produced them, and end with exactly one last response; whatever the session does (throws, ends early, is unknown, emits undecodable text). "
     "No response reaches another id; stopping the service leaves no caller waiting.",
     ["schedules", "histories", "inputs"], "every set of concurrent requests, readers, session behaviours and stop moments",
     "Lost wakeups and misrouted responses depend on interleavings of workers, readers and stop.",
     ["mllm/engine/service/"],
     [("Service sendRequest/getResponse/stopService", "mllm/engine/service/Service.cpp"), ("RequestPool/ResponsePool", "mllm/engine/service/Service.hpp"), ("SessionPool", "mllm/engine/service/Session.hpp")],
     "runtime monitoring: offline checker over each request's response log; TSan and ASan with random delays", CPPNOTE, ["responses returned per id", "return of every waiter"])

prop("C06", "Model files load back as saved, and damaged files are refused",
     "Saving any set of named parameters and loading the file, mapped or read, in both file versions, gives back the same names with the same dtypes, shapes (version 2) and bytes, whatever views the tensors were. "
     "A truncated or damaged file is refused or read within its bounds; loading never reads memory outside the file.",
     ["inputs", "configurations"], "every set of names, dtypes, shapes, views, file version, mapping mode and every damaged byte",
     "Format faults need unusual names, views and damaged descriptors; tests save one plain file.",
     ["mllm/core/ParameterFile.cpp", "mllm/core/ParameterFile.hpp"],
     [("ParameterFileIOImpl::read/write V1 and V2", "mllm/core/ParameterFile.cpp"), ("MappedFile", "mllm/core/MappedFile.cpp")],
     "runtime monitoring: round-trip oracle, independent file parser and structured corruption under ASan/UBSan", CPPNOTE, ["loaded names, shapes, dtypes, bytes", "bytes of the file"])

prop("C07", "Tensor views denote the right elements; moving data keeps every value",
     "A view (slice, view, flatten, squeeze, unsqueeze, split) denotes exactly the elements its indices name: it shares them with the tensor it was taken from, so a write through either shows in both, and it never reaches outside. "
     "Copies (contiguous, clone, copy2, concat, stack, repeat, gather, index, pad, permute, transpose, topk, argsort, scatter2Shards, maskedScatter, causal mask, fills) hold the values their definition gives, for strided and partial inputs too, or refuse; no other tensor changes.",
     ["histories", "inputs"], "every history of views, writes and data-moving operations, shape, element type, stride and offset",
     "Stride and offset faults need views of views, odd sizes and partial storages; tests use whole contiguous tensors.",
     ["mllm/core/Tensor.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/aops/", "mllm/backends/cpu/ops/"],
     [("SliceOp/ViewOp/IndexOp/SplitOp reshape", "mllm/core/aops/SliceOp.cpp"), ("CPUContiguousOp::forward", "mllm/backends/cpu/ops/ContiguousOp.cpp"), ("permute/transpose kernels", "mllm/backends/cpu/kernels/x86/transpose.cpp")],
     "runtime monitoring: shadow of the cell behind every element over random histories, ASan/UBSan", CPPNOTE, ["shape and elements of every live tensor after each operation"])

prop("C08", "The key/value caches give back every token written, per layer and head",
     "After any sequence of updates, clears, rewinds and sub-caches, the keys and values a cache gives for a layer are exactly those written for it, in order, each head repeated for its query heads; other layers and positions keep their contents. "
     "More tokens than the cache can hold are refused without touching memory outside it.",
     ["histories", "inputs", "configurations"], "every history of updates, clears, rewinds and sub-caches, layer and head count, element type and input layout",
     "Offsets depend on the history of all layers; capacity faults show only at the end of a long generation.",
     ["mllm/nn/lmcache/", "mllm/backends/cpu/ops/KVCacheOp.cpp"],
     [("StaticCache/SubStaticCache::updateKVCache, preGetKVWriteLocation", "mllm/nn/lmcache/StaticCache.cpp"), ("DynamicCache::updateKVCache", "mllm/nn/lmcache/DynamicCache.cpp"), ("CPUKVCacheOp", "mllm/backends/cpu/ops/KVCacheOp.cpp")],
     "runtime monitoring: shadow of every layer's buffer over random histories, ASan/UBSan", CPPNOTE, ["views returned and whole buffers after each step", "token counts"])

prop("C09", "Block-quantised numbers mean what their layout says, within a step",
     "For every row of finite values, quantising to q8_0, q8_K, q4_0, q4_K, q6_K, q2_K, q3_K or scaled int8 gives blocks that denote each value within the error of that format's step, whatever the other blocks of the row hold. "
     "Dequantising, adding a row and the dot products compute on what the blocks (half-precision scales as bits) denote, for every block a file may hold; nothing outside the rows is touched.",
     ["inputs"], "every row of values and every block of bits of each format",
     "A wrong scale, sign or nibble shows only for some magnitudes, positions or saturated blocks; tests quantise one random row, if any.",
     ["mllm/backends/cpu/kernels/common/ggml/quantize/", "mllm/backends/cpu/kernels/common/ggml/vec_dot.cpp", "mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp"],
     [("quantize_row_*/dequantize_row_*", "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q4.cpp"), ("vec_dot_*", "mllm/backends/cpu/kernels/common/ggml/vec_dot.cpp"), ("type traits table", "mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp")],
     "runtime monitoring: double-precision references written from the block layouts, random rows and blocks, ASan/UBSan", CPPNOTE, ["dequantised elements", "dot products", "row sums"])

prop("C10", "Matrix products equal the mathematical product of their operands",
     "For all shapes, leading dimensions, batches, transposes, biases, thread counts and weight formats they accept, the matrix kernels and the MatMul and Linear operators give, in every element, the product of what the operands denote (for views too) up to rounding, or refuse. "
     "The parts of all threads together write each element of the result and nothing else; a kernel accepts exactly what its check says.",
     ["inputs", "configurations", "schedules"], "every shape, stride, batch, thread count, element format, bias and view",
     "Tile remainders, split of tiles over threads, batch offsets and fallbacks depend on odd shapes; tests use a few aligned ones.",
     ["mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.cpp", "mllm/backends/cpu/kernels/common/ggml/matmul.cpp", "mllm/backends/cpu/ops/MatMulOp.cpp", "mllm/backends/cpu/ops/LinearOp.cpp"],
     [("llamafile_sgemm/check_llamafile_sgemm", "mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.cpp"), ("mllm_blas_matmul_fp32", "mllm/backends/cpu/kernels/x86/mllm_blas/mllm_blas_sgemm.cpp"), ("ggml::mat_mul", "mllm/backends/cpu/kernels/common/ggml/matmul.cpp")],
     "runtime monitoring: double-precision product of the operands as oracle over random shapes and threads, ASan/UBSan, watched padding", CPPNOTE, ["every element of the result", "padding of the result", "verdict of the check and of each thread"])

prop("C11", "Rotary embeddings, spectral transforms and interpolation follow definition",
     "For every shape, layout, element type, partial dimension and position table accepted, the rotary operators (plain, multimodal, vision) give each channel pair rotated by its position's angle; "
     "the short-time Fourier transform and its inverse give the sums of their definition for every size, hop, window and batch, and interpolation gives the sample its mode defines, or they refuse. Inputs that are not the output, and what lies around views, keep their values.",
     ["inputs", "configurations"], "every shape, view, element type, partial dimension, transform size, hop, window, padding and interpolation mode",
     "Wrong halves, batches, odd sizes and remainders show only for some layouts; tests use one aligned shape, if any.",
     ["mllm/backends/cpu/ops/RoPEOp.cpp", "mllm/backends/cpu/ops/MultimodalRoPEOp.cpp", "mllm/backends/cpu/ops/VisionRoPEOp.cpp", "mllm/backends/cpu/ops/STFTOp.cpp", "mllm/backends/cpu/ops/InterpolateOp.cpp"],
     [("CPURoPEOp::forward", "mllm/backends/cpu/ops/RoPEOp.cpp"), ("CPUMultimodalRoPEOp::forward", "mllm/backends/cpu/ops/MultimodalRoPEOp.cpp"), ("CPUSTFTOp/CPUISTFTOp::forward", "mllm/backends/cpu/ops/STFTOp.cpp"), ("CPUInterpolateOp::forward", "mllm/backends/cpu/ops/InterpolateOp.cpp")],
     "runtime monitoring: the definitions in double precision as oracle over random shapes and views, ASan/UBSan", CPPNOTE, ["every element of the result", "inputs and surroundings of views"])

prop("C12", "On-device tokenizers split, encode and decode text as their format defines",
     "For every text and vocabulary, the C++ tokenizers cut out special tokens (longest at each place), split the rest as their pattern says, and merge pieces by rank to the ids the vocabulary gives; decoding those ids gives the text back. "
     "UTF-8 conversions give each code point its encoding, and malformed bytes never lead outside the text.",
     ["inputs", "configurations"], "every text, vocabulary, set of merges and special tokens",
     "Splits depend on scripts, runs of white space and overlapping special tokens; tests encode one plain sentence.",
     ["mllm/preprocessor/tokenizers/", "mllm/models/"],
     [("BPE::_bpe and tokenize", "mllm/preprocessor/tokenizers/BPE.cpp"), ("Trie::split", "mllm/preprocessor/tokenizers/AutoTokenizer.cpp"), ("unicode_regex_split", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp"), ("isLetter/isDigit, UTF-8 conversions", "mllm/preprocessor/tokenizers/Unicode.cpp")],
     "runtime monitoring: results compared with HuggingFace tokenizers, the regex module and reference merges; ASan/UBSan", CPPNOTE, ["pieces", "ids", "decoded text", "converted code points"])

prop("C13", "Images and sound are read and transformed as their definitions say",
     "Opening an image or WAV file of any supported layout gives its pixels or samples; damaged or unsupported files are refused without touching memory outside. "
     "Crops, pads, resizes, normalisation, tensors, patches, slices, resampling, clips and mel features hold, for every size, rate and length, the values their definitions give, and leave their inputs alone; saving and opening again gives the same image.",
     ["inputs", "configurations"], "every size, colour type, chunk layout, depth, rate, length and sequence of transforms, and every damaged byte",
     "Borders, roundings, chunk layouts and clip times depend on odd sizes and lengths; tests read one file, if any.",
     ["mllm/preprocessor/visual/", "mllm/preprocessor/audio/", "third_party/wenet_audio/", "mllm/models/qwen2vl/image_preprocessor_qwen2vl.hpp", "mllm/models/minicpm_o2_6/"],
     [("Image open/resize/crop/pad/save/tensor", "mllm/preprocessor/visual/Image.cpp"), ("Resize/CenterCrop/Normalize/BasicImageTransform", "mllm/preprocessor/visual/ImageTransform.cpp"), ("readWAV/processWAV", "mllm/preprocessor/audio/Audio.cpp"), ("WavReader", "third_party/wenet_audio/wav.h")],
     "runtime monitoring: results compared with PIL and double-precision references; damaged files under ASan/UBSan and leak detection", CPPNOTE, ["pixels after each step", "samples", "features of each clip", "files saved"])

prop("C14", "Symbolic expressions and configuration files mean what they say",
     "Every well-formed symbolic expression (precedence, left associativity, parentheses, functions), parsed or built, evaluates to its single-precision arithmetic value however often and over whatever variables, and prints as an expression of the same value; malformed text, missing variables and modulo by zero are refused. "
     "A configuration loaded from a string or file, dumped or saved, holds exactly the given JSON value; a file that is missing, damaged or cannot be written in full is reported as std::runtime_error.",
     ["inputs", "fault_sequences"], "every expression, spelling and assignment of variables; every JSON value; every damaged text and full disk",
     "Wrong associations show only in chains of three or more operators; tests evaluate three expressions and no configuration.",
     ["mllm/compile/symbolic_expr/", "mllm/engine/ConfigFile.cpp"],
     [("SymbolExprParser::parse", "mllm/compile/symbolic_expr/Parser.cpp"), ("SymbolExprLexer::getNextToken", "mllm/compile/symbolic_expr/Parser.cpp"), ("eval/str", "mllm/compile/symbolic_expr/AST.hpp"), ("ConfigFile", "mllm/engine/ConfigFile.cpp")],
     "runtime monitoring: reference evaluator and JSON values as oracle over generated and damaged texts, file-size limits as faults, ASan/UBSan", CPPNOTE, ["values", "tokens", "printed text", "files saved", "refusals"])

prop("C15", "On-device operators give each element the value of their definition",
     "For every shape, broadcast, stride, element type and thread count, the element-wise, comparison, activation, softmax, normalisation, reduction, pooling, convolution, embedding and cast operators give in each element the value of their definition up to rounding, or report that they do not implement the case. "
     "Operands that do not broadcast and token ids outside of the table are refused; inputs that are not the output, and what lies around views, keep their values.",
     ["inputs", "configurations"], "every shape, view, broadcast, element type, thread count and in-place variant",
     "Fast paths, remainders, broadcast cases and views each take other code; tests use one contiguous shape each.",
     ["mllm/backends/cpu/ops/", "mllm/backends/cpu/kernels/x86/", "mllm/backends/cpu/kernels/common/"],
     [("CPUAddOp and the other element-wise operators", "mllm/backends/cpu/ops/ElewiseOps.cpp"), ("CPUSoftmaxOp", "mllm/backends/cpu/ops/SoftmaxOp.cpp"), ("CPURMSNormOp", "mllm/backends/cpu/ops/RMSNormOp.cpp"), ("CPUEmbeddingOp", "mllm/backends/cpu/ops/EmbeddingOp.cpp")],
     "runtime monitoring: definitions in double precision as oracle over random shapes and views, watched surroundings, ASan/UBSan", CPPNOTE, ["every element of the result", "inputs and surroundings of views", "refusals"])

prop("C16", "On-device attention operators equal dense attention over what they may see",
     "For every batch, head grouping, head size, length, window, sink, mask, layout and thread count accepted, the flash, radix, sliding-window, paged and scaled-dot-product attention operators give each query the softmax-weighted mean of exactly the values it may see; where the tokens' blocks lie in memory changes nothing. "
     "No byte outside of those tokens' blocks is read, and operands that do not fit are refused.",
     ["inputs", "configurations"], "every batch, head grouping, length, window, sink, mask, layout and order of blocks",
     "Tiles, windows, head groups and per-token addresses fail only at boundaries; the tests do not run these operators on this architecture.",
     ["mllm/backends/cpu/ops/", "mllm/backends/cpu/kernels/common/"],
     [("CPUFlashAttention2Op", "mllm/backends/cpu/ops/FlashAttention2Op.cpp"), ("CPURadixAttnOp", "mllm/backends/cpu/ops/RadixAttnOp.cpp"), ("CPUPagedAttnOp", "mllm/backends/cpu/ops/PagedAttnOp.cpp"), ("radix and swa kernels", "mllm/backends/cpu/kernels/common/radix_attn/arch.hpp")],
     "runtime monitoring: dense attention in double precision as oracle over random block layouts, ASan redzones around every token block", CPPNOTE, ["every output element", "attention weights", "refusals"])

prop("C17", "On-device models compute their checkpoint's function by every path",
     "For every configuration and checkpoint of an on-device text model (Qwen3, its flash and mixture variants, Llama, SmolLM3, MiniCPM4), prefill, chunked prefill and decode steps give the logits that the published definition gives over the whole sequence, up to a full cache; beyond it they are refused. "
     "Greedy generate, streamGenerate and chat give that function's most likely tokens and end at the configured end token or length; clearing the cache starts anew.",
     ["inputs", "configurations", "histories"], "every configuration (heads, tied embeddings, experts, rotary scaling), checkpoint, prompt, split into steps and length",
     "Options of a configuration that are ignored, and positions after the first step, need a whole model and a reference; the tests run none.",
     ["mllm/models/", "mllm/nn/lmcache/StaticCache.cpp", "mllm/backends/cpu/ops/"],
     [("Qwen3ForCausalLM::forward", "mllm/models/qwen3/modeling_qwen3.hpp"), ("SmolLM3ForCausalLM::forward", "mllm/models/smollm3_3B/modeling_smollm3.hpp"), ("ARGeneration::generate/streamGenerate/chat", "mllm/models/ARGeneration.cpp"), ("StaticCache::updateKVCache", "mllm/nn/lmcache/StaticCache.cpp")],
     "runtime monitoring: random tiny checkpoints run by every path, compared with the definition in double precision; ASan/UBSan", CPPNOTE, ["every logit of every step", "tokens generated", "refusals"])

prop("C18", "On-device sampling and generation loops honour their settings",
     "Each token the on-device samplers give is one the settings (temperature, top_k, top_p) permit, with the probability they define, and never one outside of the vocabulary. "
     "generate, streamGenerate and chat feed each token back exactly once, agree with each other, end at the end token or length limit, and pass on a failure of the model.",
     ["inputs", "configurations", "histories"], "every vector of logits, setting, random number and length",
     "Ties, tails and ends of the random range are hit once in millions of draws; the tests do not sample.",
     ["mllm/models/ARGeneration.cpp", "mllm/models/ARGeneration.hpp"],
     [("sampleTemperature/sampleTopK/sampleTopP", "mllm/models/ARGeneration.cpp"), ("sampleGreedy/categoricalSample", "mllm/models/ARGeneration.cpp"), ("generate/streamGenerate/chat", "mllm/models/ARGeneration.cpp")],
     "runtime monitoring: frequencies and supports of draws against the defined distribution; scripted model as oracle of the loops; ASan/UBSan", CPPNOTE, ["tokens drawn", "inputs the model is called with", "ends of generation"])

prop("C19", "The on-device Qwen3 sessions answer each request by its own prompt",
     "Whatever came before or runs at once, and however much of the prompt is cached, a Qwen3 session's answer to a request is the greedy continuation of its messages rendered by the published template, in whole characters, with exactly one last piece, up to the end token or max_length; malformed requests are refused. "
     "After each request, also one whose receiver failed, the blocks allocated are exactly those of the tokens in the prefix cache, each in one place.",
     ["histories", "inputs", "schedules", "fault_sequences"], "every history of requests (shared, repeated, extended, altered, concurrent, malformed), setting, checkpoint and vocabulary, and receivers that fail",
     "A prompt that is cached wholly or but for one token, thoughts, split characters and concurrent requests need a history; the tests run no session.",
     ["mllm/models/qwen3/modeling_qwen3_service.hpp", "mllm/models/qwen3/modeling_qwen3_probing_service.hpp", "mllm/models/qwen3/tokenization_qwen3.hpp", "mllm/engine/prefix_cache/"],
     [("Qwen3Session::streamGenerate", "mllm/models/qwen3/modeling_qwen3_service.hpp"), ("Qwen3Session::applyChatTemplate", "mllm/models/qwen3/modeling_qwen3_service.hpp"), ("Qwen3ProbingSession::streamGenerate", "mllm/models/qwen3/modeling_qwen3_probing_service.hpp"), ("Cache::promote/find", "mllm/engine/prefix_cache/Cache.cpp")],
     "runtime monitoring: random histories against cache-free greedy continuations, block accounting against the prefix tree, jinja2 as template oracle, ASan/UBSan", CPPNOTE, ["streamed pieces", "allocated blocks and tree", "rendered prompts", "refusals"])

prop("C20", "The on-device HTTP server gives each client its own whole answer",
     "Every valid request to the on-device HTTP server reaches its model as it was sent and is answered by exactly that model's pieces for it, in order, as well-formed events ending with [DONE]; whatever other clients send, which request ids they share, who leaves, which models fail or when the server stops, no stream hangs or mixes, and the responses of clients that left are released. "
     "Malformed requests are refused with an error status, an OCR request takes the image it carries and no file of the server, and no request leaves files or sessions behind or races with another.",
     ["schedules", "inputs", "fault_sequences"], "every request, mixture of clients, request id, failing model, disconnection and stop",
     "Mixed answers, races, leaks and hangs need many clients, equal ids, failures and disconnections; the tests send no request.",
     ["mllm-cli/pkg/server/", "mllm-cli/mllm/c.go", "mllm-cli/pkg/mllm/", "mllm/c_api/Runtime.cpp", "mllm/engine/service/Service.cpp"],
     [("chatCompletionsHandler and ocr handler", "mllm-cli/pkg/server/handlers.go"), ("Session SendRequest/PollResponse", "mllm-cli/mllm/c.go"), ("mllm service functions", "mllm/c_api/Runtime.cpp"), ("Service/ResponsePool", "mllm/engine/service/Service.cpp")],
     "runtime monitoring: the real server over real connections with scripted models, every stream compared with its script; Go race detector, ASan on the C side", CPPNOTE, ["events of every stream", "requests as the model got them", "requests left in the pools", "files left"])

prop("C21", "Traced programs compute what the module computes",
     "A module that is traced, taken through the passes, lowered, serialised and loaded again computes, on every run and for every input of the traced shapes, exactly what the module computes eagerly, however it nests, repeats or reuses layers, modules, inputs, constants and results. "
     "Tracing leaves the module as it was, and a program with an operation the interpreter cannot build is refused when it is loaded.",
     ["programs", "inputs", "configurations", "histories"], "every module of supported operations, every input of the traced shapes, setting of the passes and number of runs",
     "Names that collide, values freed too early, lost options and links need modules of particular shapes and a second run; the tests trace two fixed modules and run none.",
     ["mllm/compile/", "mllm/nn/Module.cpp", "mllm/nn/Layer.cpp"],
     [("trace_", "mllm/compile/ir/Trace.cpp"), ("IRContext/IRWriter", "mllm/compile/ir/Node.cpp"), ("passes", "mllm/compile/passes/"), ("IRSerializer, dumpLinalgIROptions", "mllm/compile/jit/binary/"), ("IRInterpreter, aopsFromJson", "mllm/compile/jit/interpreter/")],
     "runtime monitoring: random modules, the interpreted program compared bit by bit with the eager module on every run; ASan/UBSan", CPPNOTE, ["every output of every run", "refusals", "what the module computes afterwards"])

prop("C22", "On-device image-language models compute the function of their checkpoint",
     "For every configuration, checkpoint, prompt with one image of any size anywhere in its text, and tokens after it, the on-device Qwen2-VL and Qwen2.5-VL models (also their traceable variants) produce, within rounding, the logits the published definition assigns: "
     "the image's patches by their places in the grid, with the windows of Qwen2.5-VL, its embeddings in place of its tokens, and time, row and column positions that the text continues after the image's largest; generation emits their greedy tokens, in a second conversation as in the first.",
     ["inputs", "configurations", "histories"], "every configuration, checkpoint, image size, place of the image, number of decode steps and conversation",
     "Only wide, tall, cut-window images, images at the prompt's end and several steps show a swapped axis, a wrong window or position; the tests run no such model.",
     ["mllm/models/qwen2vl/", "mllm/models/qwen2_5vl/", "mllm/backends/cpu/ops/VisionRoPEOp.cpp", "mllm/backends/cpu/ops/MultimodalRoPEOp.cpp", "mllm/models/ARGeneration.cpp"],
     [("Qwen2VLForCausalLM::forward/getPositionIds", "mllm/models/qwen2vl/modeling_qwen2vl.hpp"), ("makeVisualRotaryPosEmbIds, makeMultimodalPositionEmbedding", "mllm/models/qwen2vl/modeling_qwen2vl.hpp"), ("makeWindowIndex", "mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp"), ("Qwen2_5VisionTransformerPretrainedModel", "mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp")],
     "runtime monitoring: the real models over random tiny checkpoints against the published definition in double precision; ASan/UBSan", CPPNOTE, ["every logit", "positions", "greedy tokens"])
