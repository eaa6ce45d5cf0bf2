S = 'single_use_seals/src/lib.rs'
A = 'src/api.rs'
LOOP = '''        for seal in seals {
            seal.borrow()
                .is_included(message, self)
                .then_some(())
                .ok_or(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))?;
        }
'''
import re
def src(p): return open('/repo/' + p).read()
V = src(A)
VAL = V[V.index('        let mut status = Status::new();'):V.index('    /// During the validation, the procedure goes') if '    /// During the validation, the procedure goes' in V else V.index('        status\n    }\n')]
OLDLOOP = src(S)[src(S).index('        for seal in seals {'):src(S).index('        let f_msg')]
EDITS = [
 ('q01-try-for-each', '', [(S, OLDLOOP, '''        seals.into_iter().try_for_each(|seal| {
            if seal.borrow().is_included(message, self) {
                Ok(())
            } else {
                Err(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))
            }
        })?;
''')]),
 ('q01-if', '', [(S, OLDLOOP, '''        for seal in seals {
            let seal: &Seal = seal.borrow();
            if !seal.is_included(message, self) {
                let pub_id = self.published.pub_id();
                return Err(SealError::NotIncluded(seal.clone(), pub_id));
            }
        }
''')]),
 ('q01-helper', '', [(S, OLDLOOP, '''        for seal in seals {
            self.check_seal(seal.borrow(), message)?;
        }
'''), (S, "    pub fn new(published: Seal::PubWitness, client: Seal::CliWitness) -> Self {", '''    fn check_seal(&self, seal: &Seal, message: Seal::Message) -> Result<(), SealError<Seal>> {
        match seal.is_included(message, self) {
            true => Ok(()),
            false => Err(SealError::NotIncluded(seal.clone(), self.published.pub_id())),
        }
    }

    /// doc
    pub fn new(published: Seal::PubWitness, client: Seal::CliWitness) -> Self {''')]),
 ('q01-find', '', [(S, OLDLOOP, '''        if let Some(seal) =
            seals.into_iter().find(|seal| !seal.borrow().is_included(message, self))
        {
            return Err(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()));
        }
''')]),
 ('q01-while', '', [(S, OLDLOOP, '''        let mut seals = seals.into_iter();
        while let Some(seal) = seals.next() {
            if seal.borrow().is_included(message, self) {
                continue;
            }
            return Err(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()));
        }
''')]),
 ('q01-match', '', [(S, '''        let f_msg = self
            .client
            .convolve_commit(message)
            .map_err(SealError::Client)?;
''', '''        let f_msg = match self.client.convolve_commit(message) {
            Ok(msg) => msg,
            Err(err) => return Err(SealError::Client(err)),
        };
''')]),
 ('q01-single', '', [(S, "self.verify_seals_closing([seal], message)", "self.verify_seals_closing(core::iter::once(seal), message)")]),
 ('q01-andthen', '', [(S, '''        let f_msg = self
            .client
            .convolve_commit(message)
            .map_err(SealError::Client)?;
''', ''), (S, '''        self.published
            .verify_commitment(f_msg)
            .map_err(SealError::Published)
''', '''        self.client
            .convolve_commit(message)
            .map_err(SealError::Client)
            .and_then(|f_msg| {
                self.published
                    .verify_commitment(f_msg)
                    .map_err(SealError::Published)
            })
''')]),
 ('c01-any', 'C01', [(S, OLDLOOP, '''        let mut err = None;
        for seal in seals {
            if seal.borrow().is_included(message, self) {
                err = None;
                break;
            }
            err = Some(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()));
        }
        if let Some(err) = err {
            return Err(err);
        }
''')]),
 ('c01-skip', 'C01', [(S, "for seal in seals {", "for seal in seals.into_iter().skip(1) {")]),
 ('c01-client', 'C01', [(S, "            .convolve_commit(message)\n            .map_err(SealError::Client)?;", "            .convolve_commit(message)\n            .map_err(SealError::Published)?;")] if False else [(S, "            .verify_commitment(f_msg)\n            .map_err(SealError::Published)", "            .verify_commitment(f_msg)\n            .or(Ok(()))")]),
 ('c02-last', 'C02 C01', [(S, OLDLOOP, '''        let mut bad = None;
        for seal in seals {
            if !seal.borrow().is_included(message, self) {
                bad = Some(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()));
            }
        }
        if let Some(bad) = bad {
            return Err(bad);
        }
''')]),
 ('c02-display', 'C02', [(S, "SealError::Published(err) => Display::fmt(err, f),", "SealError::Published(err) => Debug::fmt(err, f),")]),
 ('c02-source', 'C02', [(S, "SealError::Client(e) => Some(e),", "SealError::Client(_) => None,")]),
 ('q02-write', '', [(S, '''                write!(f, "seal {seal} is not included in the witness {pub_id}")''', '''                write!(f, "seal {} is not included in the witness {}", seal, pub_id)''')]),
 ('q02-source', '', [(S, '''            SealError::Published(e) => Some(e),
            SealError::Client(e) => Some(e),
        }
''', '''            SealError::Client(client) => Some(client),
            SealError::Published(published) => Some(published as &(dyn Error + 'static)),
        }
''')]),
 ('c03-eq', 'C03', [(S, "fn eq(&self, _: &Self) -> bool { true }", "fn eq(&self, _: &Self) -> bool { core::mem::size_of::<Seal>() == 0 }")]),
 # api
 ('q04-match', '', [(A, '''        if !self.failures.is_empty() {
            Validity::Invalid
        } else if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else {
            Validity::Valid
        }
''', '''        match (self.failures.is_empty(), self.seal_issues.is_empty()) {
            (true, true) => Validity::Valid,
            (true, false) => Validity::SealIssues,
            (false, _) => Validity::Invalid,
        }
''')]),
 ('q04-len', '', [(A, "if !self.failures.is_empty() {", "if self.failures.len() > 0 {")]),
 ('c04-order', 'C04', [(A, '''        if !self.failures.is_empty() {
            Validity::Invalid
        } else if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else {''', '''        if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else if !self.failures.is_empty() {
            Validity::Invalid
        } else {''')]),
 ('c04-display', 'C04', [(A, 'Validity::SealIssues => f.write_str("unresolved seal issues")', 'Validity::SealIssues => f.write_str("valid")')]),
 ('q05-append', '', [(A, "self.failures.extend(rhs.failures);", "let mut failures = rhs.failures;\n        self.failures.append(&mut failures);")]),
 ('q05-reorder', '', [(A, '''        self.seal_issues.extend(rhs.seal_issues);
        self.failures.extend(rhs.failures);
''', '''        self.failures.extend(rhs.failures);
        self.seal_issues.extend(rhs.seal_issues);
''')]),
 ('q05-for', '', [(A, '''        self.seal_issues.extend(rhs.seal_issues);
''', '''        for issue in rhs.seal_issues {
            self.seal_issues.push(issue);
        }
''')]),
 ('q05-new', '', [(A, '''            failures: iter.into_iter().collect(),
            warnings: vec![],
            info: vec![],
        }''', '''            failures: iter.into_iter().collect(),
            ..Status::new()
        }'''), (A, '''        Status {
            seal_issues: vec![],
            failures: iter''', '''        Status {
            failures: iter''')]),
 ('q05-failure', '', [(A, '''        Status {
            seal_issues: vec![],
            failures: vec![failure],
            warnings: vec![],
            info: vec![],
        }
''', '''        let mut status = Self::new();
        status.add_failure(failure);
        status
''')]),
 ('c05-lost', 'C05', [(A, "        self.warnings.extend(rhs.warnings);\n", "        if !rhs.failures.is_empty() {\n            self.warnings.extend(rhs.warnings);\n        }\n")] if False else [(A, "        self.failures.extend(rhs.failures);\n", "        if self.failures.is_empty() {\n            self.failures.extend(rhs.failures);\n        }\n")]),
 ('q06-iflet', '', [(A, '''                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));
''', '''                if let Err(issue) = resolver.resolve_trust(seal) {
                    status.add_seal_issue(issue);
                }
''')]),
 ('q06-foreach', '', [(A, '''            for seal in item.single_use_seals() {
                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));
            }
''', '''            item.single_use_seals().for_each(|seal| {
                if let Err(issue) = resolver.resolve_trust(seal) {
                    status.add_seal_issue(issue);
                }
            });
''')]),
 ('q06-filtermap', '', [(A, '''            for seal in item.single_use_seals() {
                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));
            }
''', '''            status
                .seal_issues
                .extend(item.single_use_seals().filter_map(|seal| resolver.resolve_trust(seal).err()));
''')]),
 ('q06-order', '', [(A, '''            for seal in item.single_use_seals() {
                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));
            }
            status += item.validate_internal_consistency();
''', '''            status += item.validate_internal_consistency();
            for seal in item.single_use_seals() {
                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));
            }
''')]),
 ('q06-init', '', [(A, '''        let mut status = Status::new();

        status += self.validate_internal_consistency();
''', '''        let mut status = self.validate_internal_consistency();

''')]),
 ('c06-break', 'C06', [(A, '''            status += item.validate_internal_consistency();
        }
''', '''            status += item.validate_internal_consistency();
            if status.validity() == Validity::Invalid {
                break;
            }
        }
''')]),
 ('c06-noself', 'C06', [(A, '''        status += self.validate_internal_consistency();
        for item''', '''        for item''')]),
]
