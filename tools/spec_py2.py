NOTE2 = "Executions of the real code on generated inputs judged by an independent oracle; explores inputs and histories, not all of them."

prop("P06", "Memory pools hand each free slot out once and keep every written row",
     "After any sequence of allocations, frees and grouped frees, the KV-slot allocator, the request-slot pool and the recurrent-state pool never hand out a slot that is in use or outside the pool, refuse a request they cannot serve without changing anything, and report exactly the number of free slots. "
     "A KV row or request-to-token row reads back as last written until its slot is written again, in every dtype, layer and page size.",
     ["histories", "configurations"], "every operation sequence, pool size, page size, dtype and layer count",
     "Slot reuse faults need long alloc/free histories; the tests allocate once.",
     [MC + "memory_pool.py"],
     [("TokenToKVPoolAllocator.alloc/free/free_group", MC + "memory_pool.py"), ("ReqToTokenPool", MC + "memory_pool.py"), ("GDNPool", MC + "memory_pool.py"), ("KVPool.set_kv_buffer", MC + "memory_pool.py")],
     "runtime monitoring: ownership ledger and shadow copy over random pool histories", NOTE2,
     ["alloc/free return values", "available_size()", "buffers"])

prop("P15", "Reasoning is split from content the same way however the text arrives",
     "For every model output, the reasoning parser yields one reasoning text and one content text that depend only on the whole output, not on how the stream is cut into chunks; nothing of the output is lost, duplicated or reordered, and no tag text leaks. "
     "Streaming and one-shot parsing agree.",
     ["inputs", "schedules"], "every output text (nested, repeated, partial and missing tags) and every chunking of it",
     "The tests parse a handful of fixed chunkings; tags may be split anywhere.",
     ["pymllm/parsers/reasoning_parser.py", "pymllm/server/launch.py"],
     [("ReasoningParser.parse_non_stream/parse_stream_chunk/flush", "pymllm/parsers/reasoning_parser.py")],
     "runtime monitoring: chunking-invariance oracle with generated outputs and cut points", NOTE2, ["deltas returned by the parser"])

prop("P16", "Tool calls are recognised exactly, streamed or not, and arguments add up",
     "For every model output, the tool calls recognised (order, name, arguments) and the remaining content depend only on the whole output, not on the chunking; the streamed argument pieces of each call concatenate to its arguments. "
     "Text that is not a well-formed call is delivered as content, nothing is lost or duplicated.",
     ["inputs", "schedules"], "every output text (several calls, malformed, truncated, nested braces, unicode) in each supported format and every chunking",
     "Tags and arguments can be cut anywhere; the tests use a few cuts.",
     ["pymllm/parsers/tool_call_parser.py", "pymllm/server/launch.py"],
     [("ToolCallParser.parse_non_stream/parse_stream_chunk/flush", "pymllm/parsers/tool_call_parser.py")],
     "runtime monitoring: chunking-invariance and conservation oracle with generated outputs", NOTE2, ["content and call items returned"])

prop("P17", "Top-k, top-p and min-p sampling draw only allowed tokens, in proportion",
     "For every probability row and every filter setting, a sampled token is always one the filters allow, is drawn with the renormalised probability of that token, and depends on no other row of the batch; a filter that is off removes nothing. "
     "Renormalising and masking return exactly the allowed support and sum to one.",
     ["inputs", "configurations"], "every logit row (ties, zeros, extreme scales, half precision), filter parameter (scalar or per row) and batch",
     "Tests check a few shapes; a support violation needs ties, extremes or mixed per-row parameters.",
     ["pymllm/layers/sampling.py"],
     [("top_k/top_p/min_p sampling fallbacks", "pymllm/layers/sampling.py")],
     "runtime monitoring: exact support monitor and statistical test of draws against reference distributions", NOTE2, ["sampled ids", "renormalised rows"])

prop("P18", "Speculative sampling follows the target distribution",
     "The chain of tokens accepted from a draft, plus the resampled token, is distributed as if drawn from the target model alone, whatever the draft proposes; a rejected draft position ends the chain. "
     "The reported accepted and emitted counts describe the chain that was returned.",
     ["inputs"], "every target and draft distribution, draft length and batch",
     "A distributional statement over random draws.",
     ["pymllm/layers/sampling.py"],
     [("chain_speculative_sampling", "pymllm/layers/sampling.py")],
     "runtime monitoring: statistical test against the target distribution plus count monitor", NOTE2, ["output ids", "counters"])

prop("P19", "Each batch row is sampled with its own parameters, positions and KV map",
     "In every batch, request i's next token is computed from its own logits with its own temperature, filters and penalties (greedy is exact), and its positions and KV mapping are those of its own sequence. "
     "Penalties change exactly the tokens they should by exactly the stated amount.",
     ["inputs", "configurations"], "every mix of sampling parameters, sequence lengths, prefix lengths, dtypes and batch sizes",
     "Mixed batches are not tested; a mistake shows only when rows differ.",
     ["pymllm/executor/model_runner.py", "pymllm/engine/forward_batch.py"],
     [("ModelRunner.sample/_apply_penalties", "pymllm/executor/model_runner.py"), ("compute_positions", "pymllm/engine/forward_batch.py")],
     "runtime monitoring: per-row reference model on generated batches", NOTE2, ["sampled ids", "adjusted logits", "positions", "gathered rows"])

prop("P20", "The shared-memory queue delivers every request once, whole and in order",
     "In shared-queue mode, every request and every abort the tokenizer process sends reaches the scheduler exactly once, in the order sent, with every field and every nested tensor equal to what was sent, whatever the request id, tensor dtype, shape or layout. "
     "No shared-memory segment outlives its request.",
     ["histories", "inputs", "schedules"], "every stream of requests and aborts, every metadata content and timing between the two processes",
     "Needs two processes, odd ids and tensors, and timing; no test sends anything through it.",
     [ORC + "shared_memory_queue.py", ORC + "tokenizer_process.py", ORC + "scheduler_process.py"],
     [("SharedMemoryManager.write_metadata/read_metadata", ORC + "shared_memory_queue.py"), ("TensorQueue.put/get", ORC + "shared_memory_queue.py"), ("_send_via_shared_queue", ORC + "tokenizer_process.py"), ("_recv_from_shared_queue", ORC + "scheduler_process.py")],
     "runtime monitoring: exactly-once and order checker over recorded two-process runs, segment leak audit", NOTE2,
     ["requests and aborts received", "/dev/shm"])

prop("P10", "Streamed text adds up to the decoded output",
     "For every request, the text deltas concatenate to the decoding of its whole output, no delta ever has to be taken back, and no incomplete character is shown; intermediate deltas hold back only what is still incomplete. "
     "Interleaved requests, aborted ones and reused ids do not affect each other's text.",
     ["histories", "inputs"], "every token sequence (characters cut across tokens, invalid bytes, special tokens), every interleaving of requests",
     "Depends on where characters are cut and on the order of many requests' messages; the detokenizer has no tests.",
     [ORC + "detokenizer_process.py"],
     [("_detokenize delta tracking", ORC + "detokenizer_process.py")],
     "runtime monitoring: delta-sum monitor against whole-output decoding over interleaved histories", NOTE2, ["messages to the front end"])

prop("P11", "Every caller gets its own results, complete and in order",
     "Whatever callers run concurrently (single, batch, streaming, blocking), each receives exactly the results the pipeline produced for its request ids, in order, ending with the terminal one; each request is sent once, an id in use is refused. "
     "A request given up by its caller is aborted, after it was sent, and one that ended is not; nothing is kept once all callers have left.",
     ["schedules", "histories"], "every interleaving of callers, results, early closes, cancellations and aborts",
     "Races between asyncio tasks, sockets and the backend; no test covers the front end.",
     [ORC + "request_response_process.py", "pymllm/engine/launch.py"],
     [("RequestResponseProcess.add_request/_recv_loop/abort_request", ORC + "request_response_process.py"), ("Engine.generate/generate_async", "pymllm/engine/launch.py")],
     "runtime monitoring: exactly-once and order checker over concurrent callers and a scripted backend", NOTE2, ["results per caller", "messages at the backend", "registered states"])

prop("P12", "A batch is served as its requests one by one",
     "A batched generate call sends exactly one message per prompt, in order, each carrying that prompt and that request's own value of every per-request field (or the shared one), as if sent alone; a call whose lists or ids do not fit is refused as a whole and sends nothing. "
     "Extra options never change what a request is.",
     ["inputs"], "every combination of shared and per-request fields, batch sizes, text or token ids",
     "Field-by-field splitting has combinations the few tests do not sample.",
     ["pymllm/engine/io_struct.py", ORC + "request_response_process.py", ORC + "tokenizer_process.py"],
     [("GenerateReqInput.normalize_batch_and_arguments/__getitem__/to_request_dict", "pymllm/engine/io_struct.py"), ("_tokenize", ORC + "tokenizer_process.py")],
     "runtime monitoring: differential oracle (batch against its requests) on generated calls", NOTE2, ["messages to the scheduler"])

prop("P13", "HTTP answers carry exactly what the engine produced",
     "For every endpoint, the answer (reassembled if streamed) carries for each prompt, under its index, exactly the engine's text, reasoning, tool calls, finish reason and token usage, with one finish per choice and a well-formed end of stream; the engine is called with exactly the parameters, messages and images of the body. "
     "Malformed bodies and engine errors give the documented status, and no internal detail.",
     ["inputs", "schedules"], "every request body, engine output, chunking and interleaving of batched results, and error point",
     "Streaming reassembly over all chunkings and interleavings is not tested.",
     ["pymllm/server/launch.py", "pymllm/parsers/reasoning_parser.py", "pymllm/parsers/tool_call_parser.py"],
     [("openai_completions/openai_chat_completions/generate", "pymllm/server/launch.py"), ("_build_sampling_params/_messages_to_prompt", "pymllm/server/launch.py")],
     "runtime monitoring: reassembly oracle over the ASGI app with a scripted engine", NOTE2, ["HTTP responses", "engine calls"])

prop("P14", "With an API key set, only liveness probes answer without it",
     "When an API key is configured, every request to any path other than the two liveness probes that does not carry the key or the admin key as a bearer token gets 401 and reaches nothing; a request that carries one is never refused for it. "
     "Without a configured key everything is open, and no endpoint shows the keys.",
     ["inputs", "configurations"], "every path, method, header combination and key configuration",
     "Bypasses are odd paths, headers and near-miss credentials that no test lists.",
     ["pymllm/server/launch.py"],
     [("authentication middleware", "pymllm/server/launch.py"), ("server_info redaction", "pymllm/server/launch.py")],
     "runtime monitoring: access monitor over the ASGI app with hostile requests", NOTE2, ["status codes", "engine calls"])

prop("P21", "Pooled tensor transport keeps data until every consumer has it",
     "A tensor sent through the transport pool arrives at every consumer with the bytes, dtype and shape it had when sent; a pool chunk is never handed out again before every consumer has copied it. "
     "When all consumers are done, the whole pool is free in one piece again.",
     ["schedules", "inputs", "configurations"], "every timing of sender threads, recycler and consumers, every tensor layout and pool size",
     "A race between three parties; the tests construct no pool (creating one failed).",
     [ORC + "cuda_ipc_transport.py"],
     [("MmItemMemoryPool allocation, recycling and merging", ORC + "cuda_ipc_transport.py"), ("CudaIpcTensorTransportProxy", ORC + "cuda_ipc_transport.py")],
     "runtime monitoring: chunk-ownership and data monitor under multi-process stress", NOTE2 + " CUDA memory is stood in for by shared host memory.", ["chunk intervals", "received bytes", "pool after quiescence"])

prop("P28", "A client that goes away stops its request",
     "When an HTTP client disconnects before its answer is complete (streaming or not, any endpoint), every request it started is aborted within a bounded time and its state released. "
     "A client that stays receives the complete answer and its request is not aborted.",
     ["schedules", "histories"], "every moment of disconnection, endpoint, batch size and mix of concurrent clients",
     "Needs real sockets, a running server and timing; no test disconnects.",
     ["pymllm/server/launch.py", "pymllm/engine/launch.py", ORC + "request_response_process.py"],
     [("_iter_with_disconnect_check", "pymllm/server/launch.py"), ("generate_async cleanup", "pymllm/engine/launch.py")],
     "runtime monitoring: abort monitor at the backend under clients that hang up", NOTE2, ["messages at the backend", "responses"])

MODELNOTE = "FlashInfer and CUDA kernels are replaced by torch stand-ins that check their arguments; the GPU kernels themselves are out of reach."

prop("P22", "A served Qwen3 model computes the function its checkpoint defines",
     "For every Qwen3 checkpoint (heads, grouping, biases, tied or untied embeddings, sharding, published name prefixes) loaded by the model runner, the logits of every served token equal the reference model's on that token's whole sequence. "
     "This holds however the sequence is cut into prefills, cached prefixes and decode steps and whatever else shares its batches.",
     ["configurations", "schedules", "inputs"], "every configuration, checkpoint layout, token sequence, cut into batches and batch composition",
     "A wrong weight placement, mask, position or KV row shows only in particular shapes and schedules; no test runs a model.",
     ["pymllm/models/qwen3.py", "pymllm/layers/", "pymllm/executor/model_runner.py", "pymllm/mem_cache/memory_pool.py"],
     [("Qwen3ForCausalLM forward and load_weights", "pymllm/models/qwen3.py"), ("FlashInferAttnBackend", "pymllm/layers/attention/flashinfer_backend.py"), ("ModelRunner load_model and batch builders", "pymllm/executor/model_runner.py")],
     "runtime monitoring: every row of logits compared with the transformers reference", MODELNOTE, ["logits of every batch", "kernel arguments", "KV rows read"])

prop("P23", "A served Qwen3-VL model computes its function, images included",
     "For every Qwen3-VL checkpoint, the logits of every served token, with any number of images of any grid in any sequence of the batch, equal the reference model's on that sequence alone; the position offset kept for decoding equals the reference's. "
     "Vision marker tokens that appear in plain text change nothing.",
     ["configurations", "schedules", "inputs"], "every configuration, image grid, placement of images and markers, and batch composition",
     "Images of one sequence can shift another's positions only in mixed batches; no test runs the model.",
     ["pymllm/models/qwen3_vl.py", "pymllm/layers/rope.py", "pymllm/executor/model_runner.py"],
     [("get_rope_index", "pymllm/models/qwen3_vl.py"), ("Qwen3VLVisionModel", "pymllm/models/qwen3_vl.py"), ("Qwen3VLForConditionalGeneration", "pymllm/models/qwen3_vl.py"), ("apply_mrope", "pymllm/layers/rope.py")],
     "runtime monitoring: every row of logits compared with the transformers reference", MODELNOTE, ["logits of every batch", "position offsets", "kernel arguments"])

prop("P24", "Gated-delta layers compute the recurrence by every path",
     "The chunk-parallel prefill, the sequential prefill and the decode step of a gated-delta layer give the outputs and the final state of the token-by-token recurrence (causal convolution included), for every length, head grouping and decay, however strong. "
     "Cutting a sequence into any prefills and decode steps, sharing batches with others, changes nothing, and states of other requests are left alone.",
     ["inputs", "schedules", "configurations"], "every length, gate value, initial state, chunk size and cut into batches",
     "Underflow of a chunk's decay needs published gate values and more than a few tokens; no test runs these paths.",
     ["pymllm/layers/attention/gdn_backend.py", "pymllm/layers/attention/gdn_chunkwise.py"],
     [("gdn_extend_chunkwise_torch", "pymllm/layers/attention/gdn_chunkwise.py"), ("GDNAttnBackend forward_extend/forward_decode", "pymllm/layers/attention/gdn_backend.py"), ("GDNPool", "pymllm/mem_cache/memory_pool.py")],
     "runtime monitoring: outputs and states compared with the recurrence in double precision", MODELNOTE, ["outputs of every batch", "recurrent and convolution states"])

prop("P25", "A served Qwen3.5 hybrid model computes its function",
     "For every Qwen3.5 checkpoint (any pattern of gated-delta and full-attention layers, partial rotary, tied or untied, text-only or multimodal) the logits of every served token equal the reference model's on its whole sequence, images at their three-axis positions. "
     "This holds for every cut into prefills and decode steps, every batch composition and whatever a request slot held before.",
     ["configurations", "schedules", "inputs"], "every configuration, layer pattern, token sequence, image grid and batch composition",
     "Hybrid state, gates and positions interact only in the whole model; no test runs it.",
     ["pymllm/models/qwen3_5.py", "pymllm/layers/gated_delta_net.py", "pymllm/layers/attention/hybrid_backend.py"],
     [("Qwen3_5FullAttention", "pymllm/models/qwen3_5.py"), ("Qwen3_5ForConditionalGeneration forward and load_weights", "pymllm/models/qwen3_5.py"), ("get_rope_index_qwen3_5", "pymllm/models/qwen3_5.py"), ("GatedDeltaNet", "pymllm/layers/gated_delta_net.py"), ("HybridAttnBackend", "pymllm/layers/attention/hybrid_backend.py")],
     "runtime monitoring: every row of logits compared with a reference assembled from transformers layers", MODELNOTE, ["logits of every batch", "position offsets", "kernel arguments"])

prop("P26", "Tensor-parallel shards together compute the unsharded layer",
     "For every grid of tensor, data and pipeline parallel sizes, the ranks form that grid: unique coordinates, groups that differ in one coordinate only, and collectives that reach exactly their group. "
     "On it, column-, row- and vocabulary-parallel layers and the parallel MLP, loaded from a full checkpoint, give every rank the unsharded layer's result (or its own slice where asked), for every shape, bias and input; fused layers loaded shard by shard in any order equal the stacked layer.",
     ["configurations", "inputs", "schedules"], "every grid, shape, shard order, input and interleaving of the processes",
     "Needs several processes in several groups at once; the tests run one process.",
     ["pymllm/orchestrator/parallel_state.py", "pymllm/orchestrator/group_coordinator.py", "pymllm/layers/linear.py", "pymllm/layers/embedding.py", "pymllm/layers/mlp.py"],
     [("initialize_model_parallel", "pymllm/orchestrator/parallel_state.py"), ("GroupCoordinator", "pymllm/orchestrator/group_coordinator.py"), ("ColumnParallelLinear, RowParallelLinear, MergedLinear", "pymllm/layers/linear.py"), ("VocabParallelEmbedding", "pymllm/layers/embedding.py")],
     "runtime monitoring: every rank's output and every collective compared with the unsharded computation in groups of real processes",
     "Collectives run on gloo over loopback, not NCCL; gated activations are torch stand-ins.", ["layer outputs per rank", "collective results", "rank coordinates and groups"])

prop("P29", "A decode step replayed from a captured graph equals the eager step",
     "With CUDA graphs on, every decode batch, whether it fits a captured size exactly, is padded up to one or is too large for any, gives each of its sequences the logits the model defines for it, image position offsets and recurrent states included. "
     "A replay writes only the cache rows and state slots of its own sequences and the reserved padding ones, and nothing in a captured step depends on values read on the host.",
     ["schedules", "configurations", "inputs"], "every captured schedule of sizes, batch size, history before the replay and model kind",
     "Padding rows and frozen buffers matter only when a replay follows particular other batches; the tests capture no graph.",
     ["pymllm/executor/cuda_graph_runner.py", "pymllm/layers/attention/flashinfer_backend.py", "pymllm/layers/attention/gdn_backend.py", "pymllm/layers/attention/hybrid_backend.py"],
     [("CudaGraphRunner capture, replay, can_run", "pymllm/executor/cuda_graph_runner.py"), ("_InputBuffers.populate", "pymllm/executor/cuda_graph_runner.py"), ("init_forward_metadata_replay_cuda_graph", "pymllm/layers/attention/flashinfer_backend.py"), ("GDNAttnBackend graph metadata", "pymllm/layers/attention/gdn_backend.py")],
     "runtime monitoring: replayed logits compared with the transformers reference, cache rows and states compared around every replay",
     MODELNOTE + " CUDA graphs are simulated by recording tensor operations on their buffers and repeating exactly those.", ["logits of every replay", "KV rows around every replay", "recurrent states around every replay", "host reads during capture"])

prop("P30", "The paged attention back end computes each layer's attention exactly",
     "For any page table, batch of extends with or without cached prefix, decodes and decodes on graph metadata, every query gets the attention its layer defines over its own sequence: grouped heads, scale, soft cap, sliding window next to full-context layers, and layers that share another layer's keys and values. "
     "Every new token's key and value land in its own cache rows; all other rows keep what was last written to them.",
     ["schedules", "configurations", "inputs"], "every head grouping, window, page table, prefix sharing and batch history",
     "Sliding windows, shared layers and mixed batches are reached by no test.",
     ["pymllm/layers/attention/flashinfer_backend.py", "pymllm/layers/attention/radix_attention.py", "pymllm/mem_cache/memory_pool.py"],
     [("FlashInferAttnBackend forward_extend/forward_decode", "pymllm/layers/attention/flashinfer_backend.py"), ("_FlashInferIndicesUpdaterPrefill/Decode", "pymllm/layers/attention/flashinfer_backend.py"), ("RadixAttention", "pymllm/layers/attention/radix_attention.py"), ("KVPool.set_kv_buffer", "pymllm/mem_cache/memory_pool.py")],
     "runtime monitoring: every query row compared with dense float64 attention, every cache row with what was written", MODELNOTE, ["query rows", "cache rows", "kernel plans and arguments"])

prop("P31", "A converted model file holds exactly the checkpoint's tensors",
     "For any checkpoint, single or sharded safetensors or a torch file, the converter command writes a file whose parameters are exactly the checkpoint's, each once, with name, shape, element type and bytes kept, cast or packed as the chosen pipeline says and no other change; the runtime loads the same parameters from it. "
     "The streaming and static writers keep the same promise for any tensors they accept, and refuse what the format cannot hold. "
     "A file whose writing did not finish never looks complete.",
     ["inputs", "configurations", "crash_points"], "every set of tensors, names, shapes, strides, element types, checkpoint layout, quantisation recipe and number of parameters written so far",
     "Strides, odd shapes, long names, unmatched recipes and interrupted writes are not sampled; the tests convert nothing.",
     ["pymllm/mobile/convertor/model_file_v2.py", "pymllm/mobile/convertor/mllm_type_mapping.py", "pymllm/mobile/quantize/solver.py", "pymllm/mobile/quantize/pipeline.py", "pymllm/mobile/utils/mllm_convertor.py", "mllm/core/ParameterFile.cpp"],
     [("ModelFileV2 streaming_write/static_write/finalize", "pymllm/mobile/convertor/model_file_v2.py"), ("QuantizeSolver.stream_quantize", "pymllm/mobile/quantize/solver.py"), ("load_model, main", "pymllm/mobile/utils/mllm_convertor.py"), ("W4A32KAIQuantizePass, Cast2Fp32QuantizePass", "pymllm/mobile/quantize")],
     "runtime monitoring: files parsed by an independent reader and loaded by the real runtime under ASan/UBSan, compared with the source tensors",
     "The ARM weight packer and the FFI tensor class are stand-ins: what is packed is judged by which inputs reached the packer, not by its numbers. Tensors of bfloat16 are checked in the file only, the runtime has no such type.", ["parameters of every file", "load results", "unfinished files"])

prop("P32", "A quantised checkpoint is served with the numbers it stores",
     "For every supported quantised checkpoint (AWQ 4 and 8 bit, compressed-tensors 4-bit groups or channels, 8-bit weights with per-token activations) a served layer or model computes with exactly the weights the stored integers, zero points and scales define, however layers are fused and in whatever order shards arrive. "
     "Modules the checkpoint keeps in full precision, by name, by list or by pattern, are served from the weights it stores for them. "
     "A configuration the server cannot compute is refused when it is loaded.",
     ["inputs", "configurations"], "every format, width, group size, fusion, shard order, ignore list, element type and activation",
     "The tests stub the kernels and look at shapes; a wrong permutation or a layer taken for the wrong kind shows only as degraded text on a GPU they do not have.",
     ["pymllm/quantization/methods/awq_marlin.py", "pymllm/quantization/methods/compressed_tensors.py", "pymllm/quantization/quant_config.py", "pymllm/quantization/kernels/int8_activation_triton.py", "pymllm/layers/linear.py", "pymllm/executor/model_runner.py", "pymllm/models/qwen3.py"],
     [("AWQMarlinLinearMethod, marlin_permute_scales, awq_to_marlin_zero_points", "pymllm/quantization/methods/awq_marlin.py"), ("CompressedTensorsWNA16Scheme, CompressedTensorsW8A8Int8Scheme, get_quant_method", "pymllm/quantization/methods/compressed_tensors.py"), ("MergedLinear.weight_loader", "pymllm/layers/linear.py"), ("ModelRunner._resolve_quant_config, load_model", "pymllm/executor/model_runner.py"), ("per_token_quant_int8", "pymllm/quantization/kernels/int8_activation_triton.py")],
     "runtime monitoring: every output of random quantised layers and every row of logits of random quantised models compared with the numbers the format defines",
     "The Marlin and CUTLASS kernels are stand-ins that read the kernels' layouts and refuse what those refuse (no GPU here); the Triton kernel itself runs in its interpreter.", ["layer outputs", "rows of logits", "refused configurations", "quantised activations"])

prop("P33", "Multi-axis rotary positions turn every query and key by their own angles",
     "For any batch of tokens with temporal, height and width positions, any heads, rotated part and section layout, the fused kernel and the PyTorch form turn each element of each query and key by the angle of the axis its frequency belongs to, and leave the part that is not rotated as it was. "
     "They change nothing else: no table, no positions, and no memory outside of the tensors they are given is read or written.",
     ["inputs", "configurations"], "every head count and size, partial rotation, both section layouts, number format, position values up to the table's last row and memory layout of the inputs",
     "The repository's test compares two forms on one shape and needs a GPU; out-of-range reads give right numbers until they hit the end of a mapping.",
     ["pymllm/layers/rope.py"],
     [("apply_mrope, apply_mrope_fused_, _triton_mrope_forward_fused", "pymllm/layers/rope.py")],
     "sanitizer and runtime monitoring: the Triton kernel in its interpreter with every address checked, every vector compared with a float64 definition",
     "Triton's interpreter has no bfloat16 arithmetic: bfloat16 heads run with a float32 table. Tensors that say they are on a GPU stand in for one.", ["addresses read and written", "kernel programs", "rotated vectors"])
