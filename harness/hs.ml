external guard_alloc : int -> bool -> bytes = "hs_guard_alloc"
external guard_protect : bytes -> bool -> unit = "hs_guard_protect"
external guard_intact : bytes -> bool = "hs_guard_intact"
external guard_free : bytes -> unit = "hs_guard_free"
external minor_free_words : unit -> int = "hs_minor_free_words"
external leave_minor_words : int -> int = "hs_leave_minor_words"
external pressure_major : unit -> unit = "hs_pressure_major"
external poison : bool -> unit = "hs_poison"
external poison_count : unit -> int = "hs_poison_count"
external clear_minor : unit -> unit = "hs_clear_minor"
external track : bool -> unit = "hs_track"
external track_reset : unit -> unit = "hs_track_reset"
external log_frees : bool -> unit = "hs_log_frees"
external dump : Obj.t -> Obj.t array -> string = "hs_dump"
external trace2 : ('a -> 'b -> bool) -> 'a -> 'b -> int -> bool * int * int = "hs_trace2"
external ent_script : bool -> int -> int -> unit = "hs_ent_script"
external ent_calls : unit -> int = "hs_ent_calls"
external ent_used : unit -> int = "hs_ent_used"
external ent_byte : int -> int = "hs_ent_byte"
external read_script : bool -> int array -> unit = "hs_read_script"
external read_calls : unit -> int = "hs_read_calls"
external guard_free_all : unit -> unit = "hs_guard_free_all"
external guard_room : unit -> int = "hs_guard_room"
external sparse_alloc : int -> bytes = "hs_sparse_alloc"
external sparse_free : bytes -> unit = "hs_sparse_free"
external rdrand : (unit -> unit) -> int array -> int -> int -> int -> int * int = "hs_rdrand"
external blake3 : string -> bytes -> int -> string = "hs_blake3"
external scan_minor : string -> int = "hs_scan_minor"
external minor_used_words : unit -> int = "hs_minor_used_words"
external malloc_live : unit -> int = "hs_malloc_live"
external released : int -> unit = "hs_released"
external released_count : unit -> int = "hs_released_count"
external refuse : int -> int -> unit = "hs_refuse"
external refused : unit -> int = "hs_refused"
external z_live : unit -> int = "hs_z_live"
