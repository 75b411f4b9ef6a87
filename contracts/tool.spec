// ---- the torrent command ----
extern os.Open(name) (f, err)
  modifies HANDLES
  ensures err == 0 ==> f != 0 && opened(f) == name && !old($HANDLES).dom().contains(f) && $HANDLES == old($HANDLES).insert(f, -1)
  ensures err != 0 ==> f == 0 && $HANDLES == old($HANDLES)
extern ioutil.ReadAll(r) (b, err)
  requires $HANDLES.dom().contains(err_ref(r))
  ensures err == 0 ==> b =~= content(opened(err_ref(r)))
extern io.ReadAll(r) (b, err)
  requires $HANDLES.dom().contains(err_ref(r))
  ensures err == 0 ==> b =~= content(opened(err_ref(r)))
extern ioutil.ReadFile(name) (b, err)
  ensures err == 0 ==> b =~= content(name)
extern os.ReadFile(name) (b, err)
  ensures err == 0 ==> b =~= content(name)
extern ioutil.ReadDir(dirname) (l, err)
  ensures err == 0 ==> l =~= entries(dirname)
extern fs.FileInfo.IsDir(i) (r)
  ensures r == entry_dir(i)
extern fs.FileInfo.Name(i) (r)
  ensures r == entry_name(i)
extern filepath.Join(elem) (r)
  ensures elem.len() == 2 ==> r == joined_path(elem[0], elem[1])
extern strings.HasSuffix(s, suffix) (r)
  ensures r == has_suffix(s, suffix)
extern os.Lstat(name) (i, err)
  ensures (err == 0) == there(name)
  ensures err == 0 ==> entry_dir(i) == folder(name)

func misc.IsDir(path) (r)
  ensures folder: r == (there(path) && folder(path))

func cmd.printTorrentInfo(filename, path) ()
  modifies PRINTED, HANDLES
  allocates misc.Error
  panics may
  ensures line: torrent_file(path) && says(old($PRINTED), $PRINTED, seq![torrent_line(filename, path)])
  ensures closed: $HANDLES =~= old($HANDLES)
  xensures closed: $HANDLES =~= old($HANDLES)
  xensures silent: $PRINTED == old($PRINTED)

func cmd.torrent.Run(cmd, args) ()
  modifies PRINTED, HANDLES
  allocates misc.Error
  panics may
  ensures listed: args.len() > 0 && (if there(args[0]) && folder(args[0]) { says(old($PRINTED), $PRINTED, lines(entries(args[0]), args[0], entries(args[0]).len() as int)) } else { torrent_file(args[0]) && says(old($PRINTED), $PRINTED, seq![torrent_line(args[0], args[0])]) })
  ensures closed: $HANDLES =~= old($HANDLES)
  xensures closed: $HANDLES =~= old($HANDLES)
  loop 1 (idx i, over s)
    invariant listed: says(at_entry($PRINTED), $PRINTED, lines(s, args[0], i))
    invariant closed: $HANDLES =~= at_entry($HANDLES)
    end lemma_lines(s, args[0], i - 1)

func cmd.version.Run(cmd, args) ()
  modifies PRINTED
  ensures version: $PRINTED.len() == old($PRINTED).len() + 1 && $PRINTED.drop_last() =~= old($PRINTED) && $PRINTED.last().1.s =~= seq![Val::Str(@"0.1.0")]

cone C37: cmd.torrent.Run cmd.version.Run
theory C37: net bencode misc pool conc config fetch tool
