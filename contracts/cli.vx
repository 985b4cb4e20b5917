[dir ethabi/src]
[dir cli/src]
[type Token]
[type ParamType]
[type Param]
[type StateMutability]
[type Function]
[type EventParam]
[type Event]
[type Constructor]
[type Contract]
[type RawLog]
[type LogParam]
[type Log]
[type Opt]
[type Encode]
[type Decode]
[verbatim]
text:
  pub struct StrictTokenizer;
  pub struct LenientTokenizer;
  pub struct Reader;
  /*@code*/
  broadcast use {lemma_take_step, lemma_take_all, lemma_take_0, lemma_tvs_len, lemma_tvs_push, lemma_tvs_empty};

[stub Contract::load]
attrs:
  #[verifier::external_body]
inputs: reader: File
generics:
where:
ret: Result<Contract, Error>
spec:
  ensures __r is Ok == abi_file(#1.path()) is Some, __r is Ok ==> __r->Ok_0 == abi_file(#1.path())->0 && nonempty(__r->Ok_0.functions.m()) && nonempty(__r->Ok_0.events.m()),

[fn load_function]
ret: Result<Function, Error>
spec:
  ensures match the_f(#1@, #2@) { Some(f) => __r is Ok && __r->Ok_0 == f, None => __r is Err },
entry:
  broadcast use {group_bpos, lemma_first_f0, lemma_first_e0};
  lemma_words(#2@);
inv:
  {$opt: Option<&Function>} hit($opt, first_f($src@, #2@, $i as int))
  {$opt: Option<Function>} $opt == first_f($src@, #2@, $i as int)
  {$opt: Option<usize>} hit_at($opt, $src@, first_f($src@, #2@, $i as int))
  first_f($src@, #2@, $i as int) is None
step:
  lemma_first_f_step($src@, #2@, $i as int);
pre:
  lemma_first_f_step($src@, #2@, 0);
post:
  lemma_first_f_step($src@, #2@, $i - 1);

[fn load_event]
ret: Result<Event, Error>
spec:
  ensures match the_e(#1@, #2@) { Some(f) => __r is Ok && __r->Ok_0 == f, None => __r is Err },
entry:
  broadcast use {group_bpos, lemma_first_f0, lemma_first_e0};
  lemma_words(#2@);
inv:
  {$opt: Option<&Event>} hit($opt, first_e($src@, hash_of(#2@), $i as int))
  {$opt: Option<Event>} $opt == first_e($src@, hash_of(#2@), $i as int)
  {$opt: Option<usize>} hit_at($opt, $src@, first_e($src@, hash_of(#2@), $i as int))
  first_e($src@, hash_of(#2@), $i as int) is None
step:
  lemma_first_e_step($src@, hash_of(#2@), $i as int);
pre:
  lemma_first_e_step($src@, hash_of(#2@), 0);
post:
  lemma_first_e_step($src@, hash_of(#2@), $i - 1);

[fn hash_signature]
spec:
  ensures __r.b@ == hash_of(#1@),
entry:
  reveal_strlit(" "); reveal_strlit(""); assert(seq![' '] =~= " "@);

[fn parse_tokens]
ret: Result<Vec<Token>, Error>
spec:
  ensures match read_list(#2, ptys(#1@), ptxts(#1@), #1@.len() as int) { Some(vs) => __r is Ok && tvs(__r->Ok_0@) == vs, None => __r is Err },
entry:
  broadcast use {group_text, group_cli, group_ty, group_names, group_sig, lemma_tvs_index2};
inv:
  read_list(#2, ptys(#1@), ptxts(#1@), $i as int) == Some(tvs($vec@))
  $opt is None ==> read_list(#2, ptys(#1@), ptxts(#1@), $i as int) == Some(tvs($vec@))
  $opt is Some ==> read_list(#2, ptys(#1@), ptxts(#1@), $i as int) is None
post:
  lemma_read_step(#2, ptys(#1@), ptxts(#1@), $i - 1);
pre:
  lemma_read_step(#2, ptys(#1@), ptxts(#1@), 0);
step:
  lemma_read_step(#2, ptys(#1@), ptxts(#1@), $i as int);

[fn encode_input]
file: cli/src/main.rs
ret: Result<String, Error>
spec:
  requires the_f(#1@, #2@) is Some ==> call_fits(the_f(#1@, #2@)->0, #4, strs(#3@)),
  ensures fn_done(#1@, #2@, #3@, #4, __r),
entry:
  broadcast use {group_text, group_cli, group_ty, group_names, group_sig, lemma_tvs_index2};
  if the_f(#1@, #2@) is Some { lemma_read_take(#4, tys(kinds(the_f(#1@, #2@)->0.inputs@)), strs(#3@)); lemma_read_len(#4, tys(kinds(the_f(#1@, #2@)->0.inputs@)), strs(#3@), #3@.len() as int); }
inv:
  ptys($vec@) == tys(kinds(the_f(#1@, #2@)->0.inputs@)).take($i as int)
  ptxts($vec@) == strs(#3@).take($i as int)

[fn encode_params]
ret: Result<String, Error>
spec:
  requires #1@.len() % 2 == 0, params_of(#2, #1@) is Some ==> list_fits(params_of(#2, #1@)->0),
  ensures match params_of(#2, #1@) { Some(vs) => __r is Ok && __r->Ok_0@ == hexed(enc_list(vs)), None => __r is Err },
entry:
  broadcast use {group_text, group_cli, group_ty, group_names, group_sig, lemma_tvs_index2};
inv:
  rds(evens(#1@), $i as int) == Some(ptys($vec@))
  ptxts($vec@) == odds(#1@).take($i as int)
pre:
  lemma_rds_step(evens(#1@), 0);
step:
  lemma_rds_step(evens(#1@), $i as int);

[fn decode_call_output]
ret: Result<String, Error>
spec:
  ensures out_done(#1@, #2@, #3@, __r),
entry:
  broadcast use {group_text, group_cli, group_ty, group_names, group_sig, lemma_tvs_index2};
  reveal_strlit("\n"); assert(forall|x: Seq<char>| #[trigger] x.push('\n') =~= x + "\n"@);
inv:
  strs($vec@) == lines(tnames(tys(kinds(the_f(#1@, #2@)->0.outputs@)), true), dec_list(kinds(the_f(#1@, #2@)->0.outputs@), unhex(#3@)->0)->0).take($i as int)
  {$vec: =String} $vec@ == joined(lines(tnames(tys(kinds(the_f(#1@, #2@)->0.outputs@)), true), dec_list(kinds(the_f(#1@, #2@)->0.outputs@), unhex(#3@)->0)->0).take($i as int), "\n"@)
step:
  lemma_joined_step(lines(tnames(tys(kinds(the_f(#1@, #2@)->0.outputs@)), true), dec_list(kinds(the_f(#1@, #2@)->0.outputs@), unhex(#3@)->0)->0), "\n"@, $i as int);

[fn decode_params]
ret: Result<String, Error>
spec:
  ensures types_done(#1@, #2@, __r),
entry:
  broadcast use {group_text, group_cli, group_ty, group_names, group_sig, lemma_tvs_index2};
  reveal_strlit("\n"); assert(forall|x: Seq<char>| #[trigger] x.push('\n') =~= x + "\n"@);
  lemma_tys_0();
inv:
  {$vec: Vec<ParamType>} rds(strs(#1@), $i as int) == Some(tys($vec@))
  strs($vec@) == lines(tnames(rds(strs(#1@), #1@.len() as int)->0, true), dec_list($src@, unhex(#2@)->0)->0).take($i as int)
  {$vec: =String} $vec@ == joined(lines(tnames(rds(strs(#1@), #1@.len() as int)->0, true), dec_list($src@, unhex(#2@)->0)->0).take($i as int), "\n"@)
pre:
  lemma_rds_step(strs(#1@), 0);
step:
  lemma_joined_step(lines(tnames(rds(strs(#1@), #1@.len() as int)->0, true), dec_list($src@, unhex(#2@)->0)->0), "\n"@, $i as int);
  lemma_rds_step(strs(#1@), $i as int);

[fn decode_log]
ret: Result<String, Error>
spec:
  requires 32 * #3@.len() <= isize::MAX, the_e(#1@, #2@) is Some ==> topics_valid(the_e(#1@, #2@)->0.inputs@),
  ensures log_done(#1@, #2@, #3@, #4@, __r),
entry:
  broadcast use {group_text, group_cli, group_ty, group_names, group_sig, lemma_tvs_index2};
  reveal_strlit("\n"); assert(forall|x: Seq<char>| #[trigger] x.push('\n') =~= x + "\n"@);
inv:
  {$vec: Vec<H256>} $vec@.len() == $i
  {$vec: Vec<H256>} hashes(strs(#3@), $i as int) == Some(hbytes($vec@))
  {$vec: Vec<String>} strs($vec@) == lines(lnames($src@), lvals($src@)).take($i as int)
  {$vec: =String} $vec@ == joined(lines(lnames($src@), lvals($src@)).take($i as int), "\n"@)
pre:
  lemma_hashes_step(strs(#3@), 0);
step:
  lemma_joined_step(lines(lnames($src@), lvals($src@)), "\n"@, $i as int);
  lemma_hashes_step(strs(#3@), $i as int);

[fn execute]
ret: Result<String, Error>
generics:
where:
inputs: args: VxArgs
spec:
  requires opt_fits(opt_of(args)),
  ensures done(opt_of(args), __r),
