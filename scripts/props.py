#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that wording and anchors stay in one place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
KS='1pass-core/core/service/keyservice.go'; IS='1pass-core/core/service/itemservice.go'; US='1pass-core/core/service/updateservice.go'
VS='1pass-core/core/service/vaultservice.go'; VF='1pass-core/core/facade/vaultfacade.go'; UF='1pass-core/core/facade/updatefacade.go'; CS='1pass-core/core/service/configservice.go'
IR='1pass-parse/repo/file/itemrepo.go'; PR='1pass-parse/repo/file/profilerepo.go'; CR='1pass-parse/repo/file/configrepo.go'
CC='1pass-term/control/cobra/clicontrol.go'; GC='1pass-term/control/gocui/guicontrol.go'; UP='1pass-up/component/github/updater.go'
OW='1pass-app/gui/1passwidget.go'; IW='1pass-app/gui/itemswidget.go'; DW='1pass-app/gui/detailswidget.go'; PP='1pass-app/gui/passprompt.go'; VW='1pass-app/gui/versionwidget.go'; GG='1pass-app/gui/gocui.go'; ED='1pass-app/gui/errdialog.go'; HW='1pass-app/gui/helpwidget.go'
CAT='1pass-core/core/domain/itemcategory.go'; DT='1pass-core/core/domain/datatype.go'; LV='1pass-core/core/domain/logicval.go'; ST='1pass-core/core/domain/static.go'; CB='1pass-app/cli/cobra.go'; MN='1pass-app/main.go'; VC=CC

p('C01','Nothing is decrypted before it is authenticated',
 'No encrypted blob of the vault is decrypted unless the HMAC-SHA256 of everything in it except its last 32 bytes, under the authentication key that belongs with the decryption key, equals those last 32 bytes in full. This covers the master key, the overview key, every item key, every item overview and every item details blob. A blob that fails the comparison, or is too short to hold a tag, contributes no decrypted data to anything the user sees.',
 ['inputs'],'every vault content (including tampered and truncated blobs), every password, every command and GUI action',
 'The tests decrypt one intact sample vault; none of them feeds a tampered blob, and no finite set of tampered blobs covers all of them.',
 [KS,IS],[('tag comparison before block decryption',KS),('key/MAC split of every derived key pair',KS)])
p('C02','Only the right master password opens the vault',
 'Item data is decrypted, kept or shown, and the vault is reported as unlocked, only after both the master-key blob and the overview-key blob of the profile have been verified under keys derived from the password that was typed. The derivation is PBKDF2 with HMAC-SHA512 over exactly that password with the salt and the iteration count stored in the profile, giving 64 bytes. With any other password the attempt ends in the invalid-password error and the vault stays locked.',
 ['inputs','histories'],'every password, every profile, every sequence of unlock attempts, from the command line and from the GUI',
 'The tests try one right and one wrong password against one sample profile; whether some other failing combination still unlocks is a question about all passwords and profiles.',
 [VF,KS,CC,OW],[('keys and items are stored only after the last verification',VF),('key derivation',KS)])
p('C03','Locking removes every decrypted byte from memory and screen',
 'After the lock key is pressed in the GUI, in any content view and in any state, the program state holds no vault keys, no decoded item and no item list, and no view still shows vault content. The vault is then reported as locked and the password prompt is shown again.',
 ['histories'],'every history of GUI actions before the lock key, in every content view',
 'The GUI has no tests; the facade test locks one vault once and never looks at what the widgets or views keep.',
 [VF,IR,OW,IW,DW],[('keys and items dropped on lock',VF),('widgets and views reset on lock',OW)])
p('C04','Lists, overviews and covered items never show secrets',
 'The item list, the item overview and the covered item in the GUI never contain anything computed from a field value or from the notes of an item; at most they show that notes exist. In the GUI, secrets are drawn only by the reveal key in the item list, and they are gone from the screen as soon as the reveal ends, the selection changes or the vault is locked.',
 ['inputs','histories'],'every item content and every history of GUI actions',
 'Nothing tests the printed output of the commands or the GUI views; a leak may need a particular kind of field or a particular sequence of keys.',
 [CC,OW,IW,DW],[('masked rendering of field values and notes',CC),('view cleared before every redraw',DW)])
p('C05','Passwords, keys and item secrets never leave the screen path',
 'The master password and key material are never written to a file, sent over the network, logged, put in an error message or printed. Decrypted item content goes only to standard output or to a GUI view: never to a file, the network, the log, another process or the environment.',
 ['inputs','histories'],'every command, GUI action and input',
 'Absence of a flow on all paths is not observable by running samples; tests do not look at files, log output or network traffic.',
 [KS,IS,VF,CC,GC,CR,UP],[('no sink receives secret data',CC)])
p('C06','The master password is never echoed',
 'Every way of typing the master password hides it: on the command line it is read with terminal echo switched off, and in the GUI the prompt masks every typed character before it can take input. The GUI prompt, with the password in it, is removed as soon as the password is submitted, whether or not it is right.',
 ['inputs','histories'],'every command that asks for the password and every GUI prompt, first or repeated',
 'Neither the terminal nor the GUI code has tests, and echo is a terminal effect unit tests do not see.',
 [CC,PP,OW],[('echo-free read',CC),('mask set on the prompt view',PP)])
p('C07','The vault is read-only and writes stay in known places',
 'No command and no GUI action creates, changes, renames or deletes anything in the vault. Apart from the update command, the program writes only its configuration file and its last-check file in its own configuration directory (which it may create); the update command additionally touches only its own cache directory and the running executable.',
 ['inputs','histories','configurations'],'every command, GUI action, flag, vault path, configuration and server answer',
 'Tests do not watch the file system, and the paths depend on flags, configuration and server answers.',
 [CR,UP,US,IR,PR,MN],[('all mutating calls use fixed locations',US)])
p('C08','Only a binary that matches the downloaded checksum is installed',
 'The running executable is replaced only with a file whose MD5 digest, taken over all of its bytes after extraction, equals the digest published in the checksum file downloaded for that release. Nothing can change either file between download, comparison and installation, in particular nothing inside the archive can supply the checksum it is compared with, and the installed file is executable.',
 ['inputs','fault_sequences'],'every archive and checksum content, every server answer',
 'The updater test checks a matching and a non-matching sample file; that every install is dominated by the comparison of the very same files is a statement about all paths.',
 [US,UP],[('checksum validation before replacement',US),('digest comparison',UP)])
p('C09','No update without consent and only to a newer release',
 'The update is downloaded and installed only by the update command, only after the user answered yes to its question, and only when the latest release has a version number strictly greater than the running one, compared number by number. Any other answer, an equal or older version, or a version that is not numeric, changes nothing.',
 ['inputs','histories'],'every answer typed, every version string the server can send, every command and GUI action',
 'No test drives the update dialogue or compares versions; samples of version strings cannot cover the ordering.',
 [CC,US,UP,LV],[('consent question',CC),('version comparison',UP)])
p('C10','A failed update leaves the installed program untouched',
 'The running executable is only ever changed by one atomic rename of the complete, validated new binary, and that rename happens only if every earlier step of the update succeeded. Whenever any step fails, the error is shown, the process exits with a failure status, and no success message is printed.',
 ['fault_sequences','crash_points'],'every step of the update failing, alone or after others, and a crash between any two steps',
 'No test runs an update, let alone one with an injected failure at every step.',
 [US,UP,CC],[('error propagation through the stages',US),('single rename',UP)])
p('C11','Archive extraction cannot write outside its directory',
 'Whatever names, links or entry types a downloaded archive contains, extracting it creates or overwrites files only directly inside the extraction directory.',
 ['inputs'],'every archive',
 'The extraction test unpacks one well-formed archive.',
 [UP],[('target path built from the base name of the entry',UP)])
p('C12','Automatic update checks respect the opt-out and the interval',
 'The configure, categories, list, overview and details commands contact the network only if update notifications are enabled, and then only if the configured number of days has passed since the last recorded check or no usable record exists; when both hold they do check. The version command never does; the GUI always looks in the background whether an update exists. Every check that got an answer records the current time as the last check, and a failed or skipped automatic check is silent and does not stop the command.',
 ['configurations','histories'],'every configuration, every content of the last-check file and every server answer',
 'Tests cover the interval function for a couple of fixed file contents; no test covers the wiring of opt-out, interval and record across commands.',
 [CC,UF,US,UP],[('opt-out test',CC),('interval test and time record',UP)])
p('C13','Saved settings are read back exactly',
 'Each of the four settings that is saved is read back on the next run with the value it was saved with, from the same file, and settings stored by hand that the program does not know survive a save. A setting that is absent takes its documented default: no vault, timeout 1, notifications on, period 1.',
 ['configurations','histories'],'every configuration value and every history of saves and loads',
 'Tests save and load one sample configuration; agreement of writer and reader for all settings and values, through all layers, is not sampled.',
 [CR,CS,UF,CC],[('same keys and types in writer and reader',CR)])
p('C14','Interactive configuration accepts only valid values',
 'The timeout is saved only as a whole number from 1 to 30 and the check interval only as a whole number from 0 to 365, notifications only change on a y or n answer in either letter case, and the vault path only changes after a yes; every other answer, including an empty or overlong one, keeps the previous value of that setting, and no answer changes a setting it was not asked for. Every valid answer is taken over as typed: answers are read line by line, and after a yes the vault path becomes exactly the line entered (surrounding blanks aside; an empty line clears it).',
 ['inputs','histories'],'every sequence of answers and every previous configuration',
 'The dialogue has no tests, and the range borders and invalid inputs form an unbounded space.',
 [CC,LV,CR],[('range tests before assignment',CC)])
p('C15','Searches return exactly the matching items',
 'The list shows exactly the items whose trashed state equals the requested one, whose category equals the requested category if one was given, and whose title contains the requested text (surrounding blanks and letter case aside) if one was given; an unknown category name is an error. Opening an item by identifier finds an item with exactly that identifier and trashed state, and counting counts exactly the items of the given category (or all) and trashed state.',
 ['inputs'],'every vault content and every combination of filters',
 'Tests query one sample vault with a few filters; wrong combinations may agree on that sample.',
 [IR,IS,CC,CAT],[('filter loop',IR),('flag to filter wiring',CC)])
p('C16','Lists are complete, numbered and in a fixed order',
 'The item list has one row per matching item, numbered from 1, showing identifier, category and title of the same item, ordered by category code and within a category by title. The category list has one row for every category, ordered by code.',
 ['inputs'],'every vault content',
 'Tests look at the first or the count of a sample; order and completeness for all contents are not sampled, and the printed tables have no tests.',
 [IS,CC,CAT],[('sort order',IS),('one row per item',CC)])
p('C17','Every decoded item is complete and carries its own data',
 'Every record of every band file whose category is known yields exactly one item, whether or not other band files hold no records, with that record\'s identifier, category, trashed state and creation and update times, and the title, web address and notes from its own decrypted documents. Every login-form field that has a name and a value, every section with a title or fields, and every section field that has a value appears, in order, with its own name and its own value; dates, month-year values and addresses are rendered from that value.',
 ['inputs'],'every vault content',
 'Tests decode one sample vault and a handful of hand-written fields; loss or mix-up of data for other shapes stays invisible.',
 [IR,IS,DT],[('record to item conversion',IS),('field and section parsing',IS)])
p('C18','The category registry is the OPVault one',
 'Every category code defined by the OPVault format (001-006 without documents, 099-111) maps to its own category and name, no two categories share a code or a name, lookup by code is exact, lookup by name ignores letter case, and any other code or name is rejected.',
 ['inputs'],'every code and name string',
 'Tests look up two codes and two names out of all strings.',
 [CAT],[('registry table',CAT),('lookup loops',CAT)])
p('C19','Item details show everything the item has',
 'The details command and a revealed item in the GUI show category, title, both dates (local, as YYYY-MM-DD hh:mm:ss, under their own labels), trashed state, the web address if there is one, every section title, every field name together with its own value, and the notes if there are any. The overview and the covered item show the same except that values and notes are masked. In the GUI no control character in such a text takes away other parts of it: a carriage return or escape is not passed on to the view.',
 ['inputs'],'every item content',
 'No test looks at what the commands print or the views contain.',
 [CC,DW],[('rendering loops over sections and fields',CC)])
p('C20','The given vault is the one opened, and it is validated first',
 'Every command and the GUI use the vault path given by flag if one is given and otherwise the configured default, for validation, for the profile and for the band files alike. The password is asked for only after that path was found to be a directory with a profile file in it; otherwise the error is shown and the program exits with a failure status.',
 ['inputs','configurations'],'every flag value, configuration and file system content',
 'The validation test uses two sample paths; the wiring of flag, default, validation and prompt in each command is untested.',
 [CC,GC,GG,VS,PR,IR],[('path selection',CC),('validation',VS)])
p('C21','A GUI session can always be locked and always recovers',
 'The lock key works in every view that shows vault content, and the quit key everywhere. A wrong password shows an error and closing it asks for the password again, without leaving the GUI; after a right password the main view is shown and has the focus.',
 ['histories'],'every history of GUI actions',
 'The GUI has no tests.',
 [OW,IW,DW,PP,ED,GG],[('key bindings',OW),('error dialog leads back to the prompt',OW)])
p('C22','Only the GUI main loop touches views and widget state',
 'Code running outside the GUI main loop (the background update check) never reads or writes views or state that the GUI handlers use, except through the GUI update queue.',
 ['schedules'],'every interleaving of the background update check with GUI actions',
 'A race needs a particular schedule; the GUI has no tests and none of the tests is run with a schedule in mind.',
 [VW,GC,UF],[('results handed over through the update queue',VW)])
p('C23','Menu entries, selection and shown items always agree',
 'In the GUI, opening a menu entry lists exactly the items that entry counts: all active items, the active items of that category, or the trashed items. Menu entries exist for exactly the non-empty groups, the selection index never leaves the list it points into, and the item shown or revealed is always the selected one. Every listed item takes exactly one row, whatever its title.',
 ['histories','inputs'],'every vault content and every history of GUI actions',
 'The GUI has no tests.',
 [OW,IW],[('parallel list of categories',OW),('index bounds in the cursor handlers',OW)])
p('C24','Foreign content and key presses cannot crash the program',
 'No answer of the update server, no content of the downloaded checksum file or of the last-check file, no encrypted blob of the vault (before it is authenticated) and no GUI key press in any reachable state makes the program panic by an out-of-range access, a failed type conversion or a missing object.',
 ['inputs','histories'],'every server answer, file content, blob and key history',
 'Tests use well-formed samples only.',
 [UP,US,KS,OW,IW,DW],[('length and type checks before use',UP)])
p('C25','Failures end with a failure status',
 'A command that cannot validate the vault, cannot unlock it, gets an unknown category, fails to read or write its configuration, or does not complete an update, and a command line that is not accepted (unknown command or flag, wrong number of arguments), prints the reason and exits with a non-zero status, and prints no item data. A command that did its job exits with status zero.',
 ['inputs','fault_sequences'],'every failing and every successful run of every command',
 'No test runs a command; exit paths cannot be unit-tested here at all because they end the process.',
 [CC,GG,CR],[('exit after error',CC)])
p('C26','Updates come only from the official source over verified TLS',
 'The program only ever connects to the fixed HTTPS address of the official release list and to the archive and checksum addresses of the newest release in its answer, each for its own purpose, with the standard certificate verification, and with the configured timeout in seconds for connecting.',
 ['inputs','configurations'],'every command, GUI action, server answer and configuration',
 'No test makes a request or inspects the client settings.',
 [UP,ST,US,UF],[('request addresses',UP),('client construction',UP)])
p('C27','Keys do what the help says and only the quit key ends the session',
 'In the menu and in the item list j or Down selects the next entry and k or Up the previous one, exactly one step when there is one and nothing at the ends. Enter, l or Right opens the selected menu entry; q, h or Left goes back from the items to the menu with its selection unchanged. Tab reveals the selected item and gives it the focus, Tab again covers it and goes back to the list. In the revealed item the direction keys scroll by one line or column, never before the start, and an item newly shown is shown from its start. The help panel always lists the general keys and those of the view with the focus. No key but Ctrl-Q ends the session in any reachable state.',
 ['histories'],'every history of key presses and every vault content',
 'The GUI has no tests.',
 [OW,IW,DW,PP,ED,HW,GG],[('key bindings and their handlers',OW),('item list handlers',IW),('scrolling',DW),('help texts',HW)])
p('C28','What the program says about versions and updates is true',
 'The version command and the GUI show the running version. Whenever an update check got an answer that lists a release with assets, the user is told of a new release, with the number of that release, exactly if its version is strictly newer than the running one: by a notice of the command, by the version panel of the GUI, and by the update command before it asks. The panel of the GUI always ends with an outcome, and a check that failed is not shown as one that was answered.',
 ['inputs'],'every answer of the update server and every fault of the request',
 'No test makes a request, and the notices have no tests at all; comparisons are right for most pairs of versions by accident.',
 [UP,US,CC,VW,VC],[('version comparison',UP),('notice before a command',CC),('version panel',VW)])
p('C29','The first run asks for the configuration and then uses it',
 'The list, overview and details commands and the GUI ask the questions of the configuration exactly if there is no configuration (the file is missing or empty), the same ones as the configure command, before the password is asked for and the vault is looked at; the answers are saved and in effect for the same run. The configure command always asks. No other command and no GUI key press waits for an answer on the terminal, except the one question of the update command.',
 ['inputs','configurations','histories'],'every configuration file content and every sequence of answers',
 'No test runs a command; whether and when a command asks, and whether the answers count at once, is wired in untested code.',
 [CC,CR,CB,GC],[('first run',CC),('is there a configuration',CR)])
p('C30','Nothing runs or waits forever and the GUI never waits for the network',
 'Every loop of the program ends: each round comes closer to a bound that does not move, or uses up input and stops at its end (of the terminal input, an archive, a stream). No function calls itself without an end, no lock is taken twice or kept, nothing is waited for that never comes, and the main loop of the GUI never makes a network request, sleeps or waits for a background task.',
 ['inputs','fault_sequences','schedules'],'every input, file content, server answer and fault',
 'A test run that terminates says nothing about other inputs; the loops that talk to the terminal, the network or an archive have no tests at all.',
 [UP,CC,VW,IR,IS,KS],[('archive loop',UP),('background check',VW),('version comparison loop',UP)])
p('C31','The terminal is given back when the GUI ends',
 'Once the GUI took the terminal, it is given back exactly once and before anything else is printed or the process ends: when the session is quit, and when setting up the key bindings or the main loop fails (for example because the window is too small). A session that was quit ends with status zero, one that failed shows the error and ends with a failure status. While the GUI has the terminal, handlers and background tasks neither print on it nor give it back, and they do not end the process, except when a file of the vault or the configuration cannot be read.',
 ['inputs','histories','fault_sequences'],'every way in which a GUI session ends',
 'The GUI has no tests, and a test has no terminal to lose; exit paths end the test process.',
 [GG,OW],[('session set-up, main loop and its end',GG)])
p('C32','The command line does what its help says',
 'The commands are update, configure, categories, list, overview, details and version, each directly under the program and always there, and the program without a command. The overview and details commands take exactly one argument, the identifier, list takes none, and no command needs more; none uses an argument that may not be there. The GUI, list, overview and details know --vault (-v), the last three also --trashed (-t), and list --category (-c) and --name (-n); without a flag its value is empty or false, each flag sets only its own value, and there are no other, required or ignored flags.',
 ['inputs'],'every command line',
 'No test builds the command tree; what is accepted and what a flag sets is spread over declarations of an external library.',
 [CB],[('commands, flags and argument checks',CB)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
