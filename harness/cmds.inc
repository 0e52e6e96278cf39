// Commands of the scenario language (see driver.cpp for the framework).
static void statusInto(J &j, MediaFileInfo &m)
{
    j.key("st").open('[');
    j.num(static_cast<int>(m.containerParsingStatus())).num(static_cast<int>(m.tracksParsingStatus())).num(static_cast<int>(m.tagsParsingStatus())).num(static_cast<int>(m.chaptersParsingStatus())).num(static_cast<int>(m.attachmentsParsingStatus()));
    j.close(']');
}
static void fsInto(J &j)
{
    j.key("fs").open('[');
    for (auto &l : Fs::log) j.raw(l.back() == '}' ? l : l + ",\"dir\":[]}");
    j.close(']');
}
struct Prog {
    vector<string> log;
    int calls = 0, abortAt = -1, opsAtAbort = -1, abortCall = -1;
    string lastStep;
    void hit(AbortableProgressFeedback &p, char kind)
    {
        const int k = calls++;
        log.push_back("[\"" + string(1, kind) + "\",\"" + esc(p.step()) + "\"," + std::to_string(p.stepPercentage()) + "," + std::to_string(p.overallPercentage()) + "," + std::to_string(Fs::counter) + "]");
        if (k == abortAt && !p.isAborted()) { abortCall = k; opsAtAbort = Fs::counter; p.tryToAbort(); }
    }
    AbortableProgressFeedback make()
    {
        return AbortableProgressFeedback([this](AbortableProgressFeedback &p) { hit(p, 's'); }, [this](AbortableProgressFeedback &p) { hit(p, 'p'); });
    }
    void into(J &j, const AbortableProgressFeedback &p)
    {
        j.key("prog").open('[');
        for (auto &l : log) j.raw(l);
        j.close(']');
        j.kb("aborted", p.isAborted()).kn("abortcall", abortCall).kn("abortops", opsAtAbort);
    }
};
static bool setNative(Tag *t, const string &id, const vector<TagValue> &v)
{
    if (auto *x = dynamic_cast<Id3v2Tag *>(t)) return x->setValues(Id3v2Frame::fieldIdFromString(id), v);
    if (auto *x = dynamic_cast<Mp4Tag *>(t)) {
        if (const auto p = id.find(':'); p != string::npos) {
            // extended field: mean:name
            Mp4TagField f(Mp4TagAtomIds::Extended, v.empty() ? TagValue() : v.front());
            f.setMean(id.substr(0, p));
            f.setName(id.substr(p + 1));
            x->fields().insert(std::make_pair(f.id(), std::move(f)));
            return true;
        }
        return x->setValues(Mp4TagField::fieldIdFromString(id), v);
    }
    if (auto *x = dynamic_cast<MatroskaTag *>(t)) return x->setValues(id, v);
    if (auto *x = dynamic_cast<VorbisComment *>(t)) return x->setValues(id, v);
    return false;
}
static void dirInto(J &j) { j.key("dir").raw(Fs::dirState()); j.first = false; }

// the files whose full path is mentioned in a diagnostic message
static void mentionedInto(J &j, Ctx &c, const Diagnostics &d)
{
    j.key("mentioned").open('[');
    for (const auto &e : std::filesystem::recursive_directory_iterator(c.dir)) {
        const auto p = e.path().string();
        for (const auto &m : d) {
            const auto at = m.message().find(p);
            if (at == string::npos) continue;
            const auto next = at + p.size() < m.message().size() ? m.message()[at + p.size()] : '"';
            if (next == '.' || isalnum(static_cast<unsigned char>(next))) continue;
            j.str(p.substr(c.dir.size() + 1));
            break;
        }
    }
    j.close(']');
}

static void run(Ctx &c, const vector<string> &a)
{
    J j;
    Fs::root = c.dir + "/";
    const auto &cmd = a[0];
    auto arg = [&](size_t i) { return i < a.size() ? a[i] : string(); };
    auto P = [&](size_t i) { const auto p = unesc(arg(i)); return p.empty() || p[0] == '/' ? p : c.dir + "/" + p; };
    auto done = [&] { string s = cmd; for (size_t i = 1; i < a.size(); ++i) { s += ' '; s += a[i].substr(0, 60); } emit(c, j, s); };
    j.kv("op", cmd);
    if (cmd == "new") { c.obj = std::make_unique<MediaFileInfo>(); return; }
    if (cmd == "path") { c.obj->setPath(P(1)); return done(); }
    if (cmd == "open") { const bool ro = arg(1) == "ro"; j.kv("r", guarded([&] { c.obj->open(ro); })); return done(); }
    if (cmd == "reopen") { const bool ro = arg(1) == "ro"; j.kv("r", guarded([&] { c.obj->reopen(ro); })); return done(); }
    if (cmd == "close") { c.obj->close(); return done(); }
    if (cmd == "title1") { for (auto *t : c.obj->tags()) { t->setValue(KnownField::Title, TagValue(arg(1), TagTextEncoding::Utf8)); break; } return; }
    if (cmd == "invalidate") { c.obj->invalidate(); return done(); }
    if (cmd == "clear") { c.obj->clearParsingResults(); return done(); }
    if (cmd == "dest") { c.obj.reset(); return done(); }
    if (cmd == "parse") {
        auto kv = kvs(a, 2);
        Diagnostics d;
        Prog pr;
        if (kv.count("abort")) pr.abortAt = std::stoi(kv["abort"]);
        auto p = pr.make();
        if (kv.count("preabort")) p.tryToAbort();
        auto *m = c.obj.get();
        Fs::begin();
        if (kv.count("read")) Fs::failReadAt = std::stoi(kv["read"]);
        const auto w = arg(1);
        j.kv("what", w);
        const auto r = guarded([&] {
            if (w == "container") m->parseContainerFormat(d, p);
            else if (w == "tracks") m->parseTracks(d, p);
            else if (w == "tags") m->parseTags(d, p);
            else if (w == "chapters") m->parseChapters(d, p);
            else if (w == "attachments") m->parseAttachments(d, p);
            else m->parseEverything(d, p);
        });
        const auto ops = Fs::counter, reads = Fs::readCounter;
        Fs::finish();
        j.kv("r", r).kn("ops", ops).kn("reads", reads);
        statusInto(j, *m);
        dumpDiag(j, d);
        pr.into(j, p);
        return done();
    }
    if (cmd == "look" || cmd == "canon") { // everything the object reports and the files of the directory; canon: by a fresh object which parses everything
        auto m = std::unique_ptr<MediaFileInfo>();
        auto *o = c.obj.get();
        if (cmd == "canon") {
            m = std::make_unique<MediaFileInfo>(P(1));
            o = m.get();
            Diagnostics d;
            AbortableProgressFeedback p;
            j.kv("r", guarded([&] { o->open(true); o->parseEverything(d, p); }));
        }
        statusInto(j, *o);
        j.kb("open", o->isOpen()).kv("cls", o->containerFormat() == ContainerFormat::Flac ? "flac" : o->containerFormat() == ContainerFormat::Adts || o->containerFormat() == ContainerFormat::Ivf || o->containerFormat() == ContainerFormat::MpegAudioFrames || o->containerFormat() == ContainerFormat::RiffWave ? "single" : "other");
        J info;
        const auto r = guarded([&] { dumpInfo(info, *o, false); });
        j.key("info").raw(r == "ok" ? "{" + info.s + "}" : string("{}")).kv("ri", r);
        j.key("tags").open('[');
        for (auto *t : o->tags()) dumpTag(j, t);
        j.close(']');
        j.kb("any", o->hasAnyTag());
        j.key("files").open('[');
        vector<string> names;
        for (const auto &e : std::filesystem::directory_iterator(c.dir)) if (e.path().filename().string().rfind("stderr", 0)) names.push_back(e.path().filename().string());
        std::sort(names.begin(), names.end());
        for (const auto &n : names) { const auto d = readFile(c.dir + "/" + n); j.open('[').str(n).str(std::to_string(d.size()) + ":" + tok(d)).close(']'); }
        j.close(']');
        return done();
    }
    if (cmd == "rob") {
        // rob <case> <source file> <file> <mutation;...> <modes>: damages a copy of the file, parses it and applies changes to it (on copies of the damaged file)
        auto data = readFile(P(2));
        for (const auto &mu : split(arg(4), ';')) {
            const auto x = split(mu, ':');
            if (x.size() < 2) continue;
            const auto at = std::min<size_t>(std::stoull(x[1]), data.size());
            if (x[0] == "t") data.resize(at);
            else if (x[0] == "w") { const auto d = unhex(x[2]); for (size_t k = 0; k < d.size() && at + k < data.size(); ++k) data[at + k] = d[k]; }
            else if (x[0] == "i") data.insert(at, unhex(x[2]));
            else if (x[0] == "d") data.erase(at, std::stoull(x[2]));
            else if (x[0] == "c") { const auto d = data.substr(at, std::stoull(x[2])); data.insert(std::min<size_t>(std::stoull(x[3]), data.size()), d); }
        }
        const auto path = P(3), keep = arg(6);
        j.kv("case", arg(1)).kn("size", static_cast<long long>(data.size()));
        auto rss = [] { struct rusage ru {}; getrusage(RUSAGE_SELF, &ru); return ru.ru_maxrss; };
        auto cpu = [] { struct rusage ru {}; getrusage(RUSAGE_SELF, &ru); return ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000; };
        auto tagsOf = [&](J &o, MediaFileInfo &m) {
            o.key("tags").open('[');
            for (auto *t : m.tags()) {
                const auto pre = string(t->typeName()) + (t->supportsTarget() ? targetStr(t->target()) : string()) + "|";
                for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
                    if (f == KnownField::EncoderSettings || f == KnownField::Encoder) continue;
                    for (const auto *v : t->values(f)) {
                        string x;
                        if (v->type() != TagDataType::Picture && v->type() != TagDataType::Binary && v->type() != TagDataType::Undefined) { try { x = "s" + v->toString(TagTextEncoding::Utf8); } catch (const ConversionException &) {} }
                        if (x.empty()) x = string(v->dataPointer() ? v->dataPointer() : "", v->dataSize());
                        o.str(pre + std::to_string(static_cast<int>(f)) + "|" + tok(x));
                    }
                }
            }
            o.close(']');
        };
        auto parse = [&](MediaFileInfo &m, Diagnostics &d) {
            AbortableProgressFeedback p;
            return guarded([&] { m.open(); m.parseEverything(d, p); });
        };
        auto look = [&](MediaFileInfo &m) { // everything reported must be accessible
            J info; Diagnostics d;
            auto r = guarded([&] { dumpInfo(info, m, true); m.technicalSummary(); m.hasAnyTag(); });
            for (auto *t : m.tags()) { J x; dumpTag(x, t); }
            return r;
        };
        j.key("runs").open('[');
        for (const char mode : arg(5)) {
            writeFile(path, data);
            const auto rss0 = rss(); const auto cpu0 = cpu();
            auto m = std::make_unique<MediaFileInfo>(path);
            Diagnostics d;
            j.open('{').kv("m", string(1, mode));
            const auto r = parse(*m, d);
            j.kv("r", r).kn("pdl", static_cast<int>(d.level()));
            statusInto(j, *m);
            if (r.size() && r[0] != '!') j.kv("rl", look(*m));
            if (mode == 'p') j.kb("same", readFile(path) == data);
            if (mode != 'p' && m->isOpen()) {
                tagsOf(j, *m);
                j.kv("fmt", m->containerFormatAbbreviation());
                if (mode == 'e' || mode == 'i') for (auto *t : m->tags()) { t->setValue(KnownField::Title, TagValue("a new title which is somewhat longer", TagTextEncoding::Utf8)); break; }
                if (mode == 'i' || mode == 'j') { m->setForceRewrite(false); m->setForceTagPosition(false); m->setForceIndexPosition(false); m->setMinPadding(0); m->setMaxPadding(1 << 20); m->setPreferredPadding(64); }
                if (mode == 'r') m->removeAllTags();
                if (mode == 's') m->setSaveFilePath(c.dir + "/out");
                if (mode == 'c') m->createAppropriateTags(TagCreationSettings());
                Diagnostics d2;
                AbortableProgressFeedback p;
                const auto r2 = guarded([&] { m->applyChanges(d2, p); });
                m->close();
                j.kv("r2", r2).kn("adl", static_cast<int>(d2.level()));
                const auto now = readFile(path), out = mode == 's' ? readFile(c.dir + "/out") : now;
                j.kb("same", now == data);
                string crit; for (const auto &x : d2) if (x.level() >= DiagLevel::Critical) { crit = x.message(); break; }
                j.kv("crit", crit);
                if (r2 == "ok") {
                    MediaFileInfo n(mode == 's' ? c.dir + "/out" : path);
                    Diagnostics d3;
                    J after; after.open('{');
                    after.kv("r", parse(n, d3)).kn("dl", static_cast<int>(d3.level()));
                    statusInto(after, n);
                    after.kv("rl", look(n));
                    tagsOf(after, n);
                    after.kb("rewritten", out != data);
                    after.close('}');
                    j.key("after").raw(after.s);
                    if (!keep.empty()) { writeFile(c.dir + "/../k" + keep, data); writeFile(c.dir + "/../k" + std::to_string(std::stoi(keep) + 1), out); }
                }
                for (const auto &e : std::filesystem::directory_iterator(c.dir)) {
                    const auto n = e.path().filename().string();
                    if (n.size() > 4 && n.substr(n.size() - 4) == ".bak") ::unlink(e.path().c_str());
                }
            }
            m.reset();
            j.kn("ms", cpu() - cpu0).kn("kb", rss() - rss0).close('}');
        }
        j.close(']');
        return done();
    }
    if (cmd == "status") { statusInto(j, *c.obj); return done(); }
    if (cmd == "info") {
        statusInto(j, *c.obj);
        const auto r = guarded([&] { dumpInfo(j, *c.obj, arg(1) == "deep"); });
        j.kv("r", r);
        return done();
    }
    if (cmd == "summary") { j.kv("summary", c.obj->technicalSummary()); return done(); }
    if (cmd == "tags") {
        auto *m = c.obj.get();
        j.key("tags").open('[');
        for (auto *t : m->tags()) dumpTag(j, t);
        j.close(']');
        j.kb("any", m->hasAnyTag()).kb("hv1", m->hasId3v1Tag()).kb("hv2", m->hasId3v2Tag()).kn("parsed", static_cast<long long>(m->parsedTags().size())).kb("supTags", m->areTagsSupported());
        j.kb("mp4", m->mp4Tag() != nullptr).kn("mkv", static_cast<long long>(m->matroskaTags().size())).kb("vc", m->vorbisComment() != nullptr);
        return done();
    }
    if (cmd == "file") { const auto d = readFile(P(1)); j.kn("size", static_cast<long long>(d.size())).kv("tok", tok(d)); return done(); }
    if (cmd == "snap") { dirInto(j); return done(); }
    if (cmd == "cp") { if (::access(P(1).data(), F_OK) == 0) writeFile(P(2), readFile(P(1))); return done(); }
    if (cmd == "append") { writeFile(P(1), readFile(P(1)) + unhex(arg(2))); return done(); }
    if (cmd == "snapmark") return done();
    if (cmd == "mkdir") { std::filesystem::create_directories(P(1)); return done(); }
    if (cmd == "chmod") { ::chmod(P(1).data(), static_cast<mode_t>(std::stoul(arg(2), nullptr, 8))); return done(); }
    if (cmd == "symlink") { j.kn("r", ::symlink(P(1).data(), P(2).data())); return done(); }
    // ---- tag edits
    if (cmd == "set" || cmd == "setvals" || cmd == "setnat") {
        auto *t = findTag(c, arg(1));
        if (!t) { j.kv("r", "notag"); return done(); }
        string r = "?";
        bool ok = false;
        vector<TagValue> vals;
        r = guarded([&] { vals = parseValues(a, 3); });
        if (r == "ok") r = guarded([&] {
            if (cmd == "set") ok = t->setValue(static_cast<KnownField>(std::stoi(arg(2))), vals.empty() ? TagValue() : vals.front());
            else if (cmd == "setvals") ok = t->setValues(static_cast<KnownField>(std::stoi(arg(2))), vals);
            else ok = setNative(t, unesc(arg(2)), vals);
        });
        j.kv("r", r).kb("ok", ok);
        if (arg(1)[0] == '#') {
            j.key("vals").open('[');
            for (const auto &v : vals) if (v.isEmpty()) j.open('[').close(']'); else dumpValue(j, v);
            j.close(']');
            dumpTag(j.key("tag"), t);
        }
        return done();
    }
    if (cmd == "rm") { auto *t = findTag(c, arg(1)); j.kb("ok", t && c.obj->removeTag(t)); return done(); }
    if (cmd == "rmall") { c.obj->removeAllTags(); return done(); }
    if (cmd == "rmfields") { auto *t = findTag(c, arg(1)); if (t) t->removeAllFields(); if (t && arg(1)[0] == '#') dumpTag(j.key("tag"), t); return done(); }
    if (cmd == "create") {
        auto kv = kvs(a, 1);
        TagCreationSettings s;
        auto usage = [](const string &u) { return u == "always" ? TagUsage::Always : u == "never" ? TagUsage::Never : TagUsage::KeepExisting; };
        if (kv.count("v1")) s.id3v1usage = usage(kv["v1"]);
        if (kv.count("v2")) s.id3v2usage = usage(kv["v2"]);
        if (kv.count("ver")) s.id3v2MajorVersion = static_cast<std::uint8_t>(std::stoi(kv["ver"]));
        if (kv.count("flags")) s.flags = static_cast<TagCreationFlags>(std::stoul(kv["flags"]));
        if (kv.count("targets")) for (auto &t : split(kv["targets"], ';')) s.requiredTargets.push_back(parseTarget(unesc(t)));
        bool ok = false;
        j.kv("r", guarded([&] { ok = c.obj->createAppropriateTags(s); })).kb("ok", ok);
        return done();
    }
    if (cmd == "mk") {
        auto *m = c.obj.get();
        bool ok = false;
        j.kv("r", guarded([&] {
            if (arg(1) == "v1") ok = m->createId3v1Tag();
            else if (arg(1) == "v2") ok = m->createId3v2Tag();
            else if (arg(1) == "vc") ok = m->createVorbisComment();
            else if (arg(1) == "c") ok = m->container() && m->container()->createTag(a.size() > 2 ? parseTarget(arg(2)) : TagTarget());
        })).kb("ok", ok);
        return done();
    }
    if (cmd == "rmv1") { j.kb("ok", c.obj->removeId3v1Tag()); return done(); }
    if (cmd == "rmv2all") { j.kb("ok", c.obj->removeAllId3v2Tags()); return done(); }
    if (cmd == "rmvc") { j.kb("ok", c.obj->removeVorbisComment()); return done(); }
    if (cmd == "merge") { c.obj->mergeId3v2Tags(); return done(); }
    if (cmd == "v1tov2") { bool ok = false; j.kv("r", guarded([&] { ok = c.obj->id3v1ToId3v2(); })).kb("ok", ok); return done(); }
    if (cmd == "v2tov1") { bool ok = false; j.kv("r", guarded([&] { ok = c.obj->id3v2ToId3v1(); })).kb("ok", ok); return done(); }
    if (cmd == "ver") { if (auto *t = dynamic_cast<Id3v2Tag *>(findTag(c, arg(1)))) t->setVersion(static_cast<std::uint8_t>(std::stoi(arg(2))), 0); return done(); }
    if (cmd == "target") { if (auto *t = findTag(c, arg(1))) t->setTarget(parseTarget(arg(2))); return done(); }
    if (cmd == "opt") {
        auto *m = c.obj.get();
        for (auto &[k, v] : kvs(a, 1)) {
            auto pos = [](const string &x) { return x == "before" ? ElementPosition::BeforeData : x == "after" ? ElementPosition::AfterData : ElementPosition::Keep; };
            if (k == "flags") m->setFileHandlingFlags(static_cast<MediaFileHandlingFlags>(std::stoul(v)));
            else if (k == "force") m->setForceRewrite(v == "1");
            else if (k == "full") m->setForceFullParse(v == "1");
            else if (k == "fullsize") m->setMaxFullParseSize(std::stoull(v));
            else if (k == "min") m->setMinPadding(std::stoul(v));
            else if (k == "max") m->setMaxPadding(std::stoul(v));
            else if (k == "pref") m->setPreferredPadding(std::stoul(v));
            else if (k == "tag") m->setTagPosition(pos(v));
            else if (k == "index") m->setIndexPosition(pos(v));
            else if (k == "ftag") m->setForceTagPosition(v == "1");
            else if (k == "findex") m->setForceIndexPosition(v == "1");
            else if (k == "save") { const auto p = unesc(v); m->setSaveFilePath(p.empty() || p[0] == '/' ? p : c.dir + "/" + p); }
            else if (k == "backup") { const auto p = unesc(v); m->setBackupDirectory(p.empty() || p[0] != '@' ? p : c.dir + "/" + p.substr(1)); }
            else if (k == "wr") m->setWritingApplication(unesc(v));
        }
        return;
    }
    if (cmd == "trk") {
        auto ts = c.obj->tracks();
        const auto n = std::stoul(arg(1));
        if (n >= ts.size()) { j.kv("r", "notrack"); return done(); }
        auto *t = ts[n];
        for (auto &[k, v] : kvs(a, 2)) {
            if (k == "name") t->setName(unesc(v));
            else if (k == "lang") t->setLocale(Locale(string_view(v), LocaleFormat::ISO_639_2_B));
            else if (k == "bcp") { auto l = t->locale(); l.emplace_back(string_view(v), LocaleFormat::BCP_47); t->setLocale(l); }
            else if (k == "enabled") t->setEnabled(v == "1");
            else if (k == "default") t->setDefault(v == "1");
            else if (k == "forced") t->setForced(v == "1");
            else if (k == "id") t->setId(std::stoull(v));
            else if (k == "number") t->setTrackNumber(static_cast<std::uint32_t>(std::stoul(v)));
        }
        return done();
    }
    if (cmd == "trkrm") {
        auto ts = c.obj->tracks();
        const auto n = std::stoul(arg(1));
        bool ok = false;
        j.kv("r", guarded([&] { ok = n < ts.size() && c.obj->container() && c.obj->container()->removeTrack(ts[n]); })).kb("ok", ok);
        return done();
    }
    if (cmd == "title") { if (c.obj->container()) c.obj->container()->setTitle(unesc(arg(2)), std::stoul(arg(1))); return done(); }
    if (cmd == "att") {
        auto *cont = c.obj->container();
        AbstractAttachment *at = nullptr;
        if (arg(1) == "new") at = cont ? cont->createAttachment() : nullptr;
        else if (cont && std::stoul(arg(1)) < cont->attachmentCount()) at = cont->attachment(std::stoul(arg(1)));
        if (!at) { j.kv("r", "noatt"); return done(); }
        Diagnostics d;
        AbortableProgressFeedback p;
        j.kv("r", guarded([&] {
            auto kv = kvs(a, 2);
            if (kv.count("file")) { const auto f = unesc(kv["file"]); at->setFile(c.dir + "/" + f, d, p); }
            for (auto &[k, v] : kv) {
                if (k == "name") at->setName(unesc(v));
                else if (k == "mime") at->setMimeType(unesc(v));
                else if (k == "desc") at->setDescription(unesc(v));
                else if (k == "id") at->setId(std::stoull(v));
                else if (k == "ignored") at->setIgnored(v == "1");
            }
        }));
        return done();
    }
    // ---- applying changes
    if (cmd == "apply") {
        auto kv = kvs(a, 1);
        Diagnostics d;
        Prog pr;
        if (kv.count("abort")) pr.abortAt = std::stoi(kv["abort"]);
        auto p = pr.make();
        if (kv.count("preabort")) p.tryToAbort();
        if (kv.count("fail")) Fs::failAt = std::stoi(kv["fail"]);
        if (kv.count("err")) Fs::failErr = std::stoi(kv["err"]);
        if (kv.count("read")) Fs::failReadAt = std::stoi(kv["read"]);
        Fs::sticky = kv.count("sticky");
        Fs::shortWrite = kv.count("short");
        Fs::snapshots = kv.count("snap");
        if (kv.count("kill")) Fs::killAt = std::stoi(kv["kill"]);
        Fs::exdev = kv.count("exdev");
        auto inode = [&](const string &path) { struct stat s; return ::stat(path.data(), &s) ? 0ull : static_cast<unsigned long long>(s.st_ino); };
        const auto oldPath = c.obj->path();
        const auto oldInode = inode(oldPath);
        Fs::begin();
        const auto r = guarded([&] { c.obj->applyChanges(d, p); });
        const auto ops = Fs::counter, reads = Fs::readCounter;
        const auto curPath = c.obj->path();
        Fs::active = false;
        if (kv.count("close")) c.obj->close();
        j.kb("inplace", curPath == oldPath && inode(curPath) == oldInode);
        j.kv("r", r).kn("ops", ops).kn("reads", reads).kv("path", curPath.substr(0, c.dir.size() + 1) == c.dir + "/" ? curPath.substr(c.dir.size() + 1) : curPath);
        statusInto(j, *c.obj);
        dumpDiag(j, d);
        pr.into(j, p);
        if (kv.count("snap")) fsInto(j);
        dirInto(j);
        mentionedInto(j, c, d);
        Fs::finish();
        return done();
    }
    if (cmd == "backup" || cmd == "restore") {
        // backup <dir> <original> / restore <original> <backup>
        auto kv = kvs(a, 3);
        NativeFileStream o, b;
        o.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        b.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        auto original = P(2), bp = string();
        if (kv.count("fail")) Fs::failAt = std::stoi(kv["fail"]);
        Fs::exdev = kv.count("exdev");
        Fs::snapshots = true;
        string r;
        const auto w = unesc(arg(1));
        if (cmd == "backup") {
            const auto bd = w.empty() || w[0] != '@' ? (w == "-" ? string() : w) : c.dir + "/" + w.substr(1);
            if (kv.count("streams")) o.open(original.data(), std::ios_base::in | std::ios_base::binary);
            Fs::begin();
            r = guarded([&] { if (kv.count("canonical")) BackupHelper::createBackupFileCanonical(bd, original, bp, o, b); else BackupHelper::createBackupFile(bd, original, bp, o, b); });
            j.kb("bopen", b.is_open());
        } else {
            original = P(1); bp = P(2);
            if (kv.count("streams")) { o.open(original.data(), std::ios_base::in | std::ios_base::binary); b.open(bp.data(), std::ios_base::in | std::ios_base::binary); }
            Fs::begin();
            r = guarded([&] { BackupHelper::restoreOriginalFileFromBackupFile(original, bp, o, b); });
        }
        Fs::active = false;
        j.kv("r", r).kv("bp", bp.substr(0, c.dir.size() + 1) == c.dir + "/" ? bp.substr(c.dir.size() + 1) : bp);
        fsInto(j);
        dirInto(j);
        Fs::finish();
        return done();
    }
    // ---- standalone tags (names start with #)
    if (cmd == "tnew") { c.tags[arg(1)] = makeStandalone(arg(2)); if (c.tags[arg(1)]) dumpTag(j.key("tag"), c.tags[arg(1)].get()); return done(); }
    if (cmd == "tdump") { if (auto *t = findTag(c, arg(1))) dumpTag(j.key("tag"), t); return done(); }
    if (cmd == "tins") {
        auto *d = findTag(c, arg(1)), *s = findTag(c, arg(2));
        long long n = -1;
        j.kv("r", guarded([&] { if (d && s) n = static_cast<long long>(d->insertValues(*s, arg(3) == "1")); })).kn("n", n);
        if (d) dumpTag(j.key("tag"), d);
        if (s) dumpTag(j.key("src"), s);
        return done();
    }
    if (cmd == "tenc") { auto *t = findTag(c, arg(1)); j.kv("r", guarded([&] { if (t) t->ensureTextValuesAreProperlyEncoded(); })); if (t) dumpTag(j.key("tag"), t); return done(); }
    if (cmd == "tsup") {
        auto *t = findTag(c, arg(1));
        j.key("fields").open('[');
        for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
            j.open('[').num(static_cast<int>(f)).boolean(t->supportsField(f)).num(static_cast<int>(t->proposedDataType(f))).boolean(t->supportsMultipleValues(f)).boolean(t->supportsDescription(f)).boolean(t->supportsMimeType(f));
            string id;
            if (auto *x = dynamic_cast<Id3v2Tag *>(t)) id = x->fieldId(f) ? Id3v2Frame::fieldIdToString(x->fieldId(f)) : string();
            if (auto *x = dynamic_cast<Mp4Tag *>(t)) id = x->fieldId(f) ? Mp4TagField::fieldIdToString(x->fieldId(f)) : string();
            if (auto *x = dynamic_cast<MatroskaTag *>(t)) id = x->fieldId(f);
            if (auto *x = dynamic_cast<VorbisComment *>(t)) id = x->fieldId(f);
            j.str(id);
            j.close(']');
        }
        j.close(']');
        return done();
    }
    if (cmd == "tmake" || cmd == "tread") {
        // serialize a standalone tag / parse it again
        auto *t = findTag(c, arg(1));
        Diagnostics d;
        string bytes;
        j.kv("r", guarded([&] {
            if (cmd == "tmake") {
                std::stringstream os;
                os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                if (auto *x = dynamic_cast<Id3v1Tag *>(t)) x->make(os, d);
                else if (auto *x = dynamic_cast<Id3v2Tag *>(t)) { auto mk = x->prepareMaking(d); j.kn("req", static_cast<long long>(mk.requiredSize())); mk.make(os, static_cast<std::uint32_t>(std::stoul(arg(3).empty() ? "0" : arg(3))), d); }
                else if (auto *x = dynamic_cast<Mp4Tag *>(t)) { auto mk = x->prepareMaking(d); j.kn("req", static_cast<long long>(mk.requiredSize())); mk.make(os, d); }
                else if (auto *x = dynamic_cast<MatroskaTag *>(t)) { auto mk = x->prepareMaking(d); j.kn("req", static_cast<long long>(mk.requiredSize())); mk.make(os); }
                else if (auto *x = dynamic_cast<VorbisComment *>(t)) x->make(os, VorbisCommentFlags::None, d);
                bytes = os.str();
                writeFile(P(2), bytes);
            } else {
                std::stringstream is(readFile(P(2)));
                is.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                const auto sz = readFile(P(2)).size();
                if (auto *x = dynamic_cast<Id3v1Tag *>(t)) x->parse(is, d);
                else if (auto *x = dynamic_cast<Id3v2Tag *>(t)) x->parse(is, sz, d);
                else if (auto *x = dynamic_cast<VorbisComment *>(t)) x->parse(is, sz, VorbisCommentFlags::None, d);
            }
        }));
        if (cmd == "tmake") j.kn("size", static_cast<long long>(bytes.size())).kv("tok", tok(bytes));
        else dumpTag(j.key("tag"), t);
        dumpDiag(j, d);
        return done();
    }
    // ---- values
    if (cmd == "v") {
        j.kv("r", guarded([&] { c.vals[arg(1)] = parseValue(arg(2)); }));
        dumpValue(j.key("val"), c.vals[arg(1)]);
        return done();
    }
    if (cmd == "vget") {
        // vget <name> <target>: the value in the requested representation
        const auto &v = c.vals[arg(1)];
        const auto w = arg(2);
        string out;
        const auto r = guarded([&] {
            if (w == "str") out = v.toString();
            else if (w == "u8") out = v.toString(TagTextEncoding::Utf8);
            else if (w == "l1") out = v.toString(TagTextEncoding::Latin1);
            else if (w == "le") out = v.toString(TagTextEncoding::Utf16LittleEndian);
            else if (w == "be") out = v.toString(TagTextEncoding::Utf16BigEndian);
            else if (w == "disp") out = v.toDisplayString();
            else if (w == "w" || w == "wb") { for (char16_t ch : v.toWString(w == "w" ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf16BigEndian)) { char b[8]; snprintf(b, sizeof b, "%04x", static_cast<unsigned>(ch)); out += b; } }
            else if (w == "i") out = std::to_string(v.toInteger());
            else if (w == "u") out = std::to_string(v.toUnsignedInteger());
            else if (w == "g") out = std::to_string(v.toStandardGenreIndex());
            else if (w == "p") { const auto p = v.toPositionInSet(); out = std::to_string(p.position()) + "/" + std::to_string(p.total()); }
            else if (w == "ts") out = std::to_string(v.toTimeSpan().totalTicks());
            else if (w == "dt") out = std::to_string(v.toDateTime().totalTicks());
            else if (w == "dtx") { const auto e = v.toDateTimeExpression(); out = e.toIsoString() + "|" + std::to_string(static_cast<int>(e.parts)); }
            else if (w == "pop") { const auto p = v.toPopularity(); char b[64]; snprintf(b, sizeof b, "|%.17g|%llu|%u", p.rating, static_cast<unsigned long long>(p.playCounter), static_cast<unsigned>(p.scale)); out = p.user + b; }
            else if (w.substr(0, 3) == "pop") { const auto p = v.toScaledPopularity(static_cast<TagType>(std::stoul(w.substr(3)))); char b[64]; snprintf(b, sizeof b, "|%.17g|%llu|%u", p.rating, static_cast<unsigned long long>(p.playCounter), static_cast<unsigned>(p.scale)); out = p.user + b; }
            else if (w == "empty") out = v.isEmpty() ? "1" : "0";
            else if (w == "null") out = v.isNull() ? "1" : "0";
        });
        j.kv("r", r).kx("out", out);
        return done();
    }
    if (cmd == "vcmp") {
        const auto &x = c.vals[arg(1)], &y = c.vals[arg(2)];
        bool eq = false;
        j.kv("r", guarded([&] { eq = x.compareTo(y, static_cast<TagValueComparisionFlags>(std::stoul(arg(3).empty() ? "0" : arg(3)))); })).kb("eq", eq);
        return done();
    }
    if (cmd == "vconv") { // change the encoding in place
        j.kv("r", guarded([&] { c.vals[arg(1)].convertDataEncoding(encOf(arg(2))); }));
        dumpValue(j.key("val"), c.vals[arg(1)]);
        return done();
    }
    if (cmd == "vraw") {
        // the stored bytes and the encoding they are declared to have
        const auto &v = c.vals[arg(1)];
        j.kn("type", static_cast<long long>(v.type())).kn("enc", static_cast<long long>(v.dataEncoding())).kx("hex", v.isEmpty() ? string() : string(v.dataPointer(), v.dataSize()));
        j.kn("denc", static_cast<long long>(v.descriptionEncoding())).kx("dhex", v.description()).kv("mime", v.mimeType());
        return done();
    }
    if (cmd == "vasg") { // vasg <name> <encoding> <convert to> <text>
        const auto pay = unesc(arg(4));
        j.kv("r", guarded([&] { c.vals[arg(1)] = TagValue(); c.vals[arg(1)].assignText(pay.data(), pay.size(), encOf(arg(2)), encOf(arg(3))); }));
        return done();
    }
    if (cmd == "vdesc") { j.kv("r", guarded([&] { c.vals[arg(1)].convertDescriptionEncoding(encOf(arg(2))); })); return done(); }
    if (cmd == "vcopy") { c.vals[arg(2)] = c.vals[arg(1)]; return; }
    if (cmd == "scale") {
        // scale <from> <to> <rating>
        Popularity p;
        p.rating = std::stod(arg(3)); p.scale = static_cast<TagType>(std::stoul(arg(1)));
        const bool ok = p.scaleTo(static_cast<TagType>(std::stoul(arg(2))));
        char b[64]; snprintf(b, sizeof b, "%.17g", p.rating);
        j.kb("ok", ok).kv("out", b).kn("scale", static_cast<long long>(p.scale));
        return done();
    }
    if (cmd == "genre") {
        j.kv("name", Id3Genres::stringFromIndex(std::stoi(arg(1)))).kn("idx", Id3Genres::indexFromString(Id3Genres::stringFromIndex(std::stoi(arg(1))))).kb("valid", Id3Genres::isIndexSupported(std::stoi(arg(1))));
        return done();
    }
    j.kv("r", "unknown command");
    done();
}
